package props

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vsched"
)

func init() {
	register("M12", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "names", Doc: "every name of the hostile list at every place that lists names (Release, Packages, Sources directory and file, i18n Index), with and without by-hash, first run and update, alone and next to healthy entries",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: m12names,
		},
		&explore.Scenario{
			Name: "pairs", Doc: "every pair of hostile names in one list",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: m12pairs,
		},
		&explore.Scenario{
			Name: "ids", Doc: "mirror ids, as configured and as asked for, that are no plain names: nothing outside of the mirror directory and nothing of other mirrors changes, and valid ids work",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: m12ids,
		},
		&explore.Scenario{
			Name: "sequence", Doc: "hostile, healthy and again hostile versions after each other, so that recorded names are reused",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: m12sequence,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "hostile names under every interleaving within the bound, two mirrors",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: netMask | vsched.CatFS, NoPrio: true, Run: m12schedule,
		},
	)
}

const nDir = ".n.20000101_000000" // storage directory of mirror n in the scenarios

// hostile names, relative to the mirror root.
var hostile = []string{
	"../x", "../../x", "../../../x", "../../../../../../../../etc/passwd", "/etc/passwd", "//etc/passwd", "..", ".", "./", "../", "../..", "/", "/..", "/.",
	"a/../../x", "a/../../../x", "./../x", "a//../..//x", "../m/pool/x", "../m", "../m/dists/s/Release", "../info.json", "../_tmp1", "../../.lock", "../../m", "../../n", "../../m.tmp",
	"../../n/pool/m/a_n1.deb", "../../n/pool/m/new", "../../" + nDir + "/info.json", "../../" + nDir + "/n/pool/m/new", "../../../other/keep", "../../../empty/x",
	"dists", "pool", "dists/s", "dists/s/Release", "dists/s/InRelease", "dists/s/main", "dists/s/main/binary-amd64/Packages", "dists/s/main/binary-amd64/Packages/x",
	"dists/s/main/binary-amd64/by-hash", "dists/s/main/binary-amd64/by-hash/SHA256/00", "pool/m", "pool/m/a_2.deb", "pool/m/a_2.deb/x", "pool/m/keep_0.deb", "info.json", "_tmp1", ".lock", "m", "n",
	"main/binary-amd64/by-hash/SHA256/HASH", "main/binary-amd64/by-hash/MD5Sum/HASH", "main/binary-amd64/Packages", "InRelease", "Release.gpg", "by-hash", "by-hash/SHA256/x",
	"...", "..x", "x..", ".x", "..\\x", "%2e%2e/x", "..%2fx", "x%00", "a:b", "http://evil/x", "//evil/x", "?x", "#x", "x?y#z", "~/x", "$HOME/x", "a\tb", "é", "\xff\xfe", "a..b/../c", "....//x", "x/", "x/.", "x/..", "x/./y",
	strings.Repeat("d/", 60) + "x", strings.Repeat("../", 60) + "x", strings.Repeat("n", 300),
}

const evil = "evil data"

// places where names are listed.
var places = []string{"Packages", "Release", "Sources-file", "Sources-dir", "Index", "flat-Packages", "Release-index"}

// rawStanza renders a Packages stanza without cleaning the name.
func rawStanza(name string) string {
	return fmt.Sprintf("Package: e\nFilename: %s\nSize: %d\nMD5sum: %s\nSHA1: %s\nSHA256: %s\n\n", name, len(evil), hexsum("MD5Sum", []byte(evil)), hexsum("SHA1", []byte(evil)), hexsum("SHA256", []byte(evil)))
}

func rawSource(dir, name string) string {
	f := func(k string) string { return fmt.Sprintf(" %s %d %s\n", hexsum(k, []byte(evil)), len(evil), name) }
	return "Package: e\nDirectory: " + dir + "\nFiles:\n" + f("MD5Sum") + "Checksums-Sha1:\n" + f("SHA1") + "Checksums-Sha256:\n" + f("SHA256") + "\n"
}

// realHash completes the by-hash names of a healthy index.
func realHash(n string) string {
	if strings.HasSuffix(n, "/HASH") {
		return n[:len(n)-4] + hexsum(path.Base(path.Dir(n)), packages(small("2", false).suites[0].indices[0].items))
	}
	return n
}

// hostileVer makes a repository that lists name at place; whatever unknown
// path is requested is answered with evil data.
func hostileVer(ver, place string, names []string, byhash bool) *mver {
	r := small(ver, byhash)
	names = append([]string(nil), names...)
	for i, n := range names {
		names[i] = realHash(n)
	}
	s := &r.suites[0]
	good := packages(s.indices[0].items)
	extra := ""
	var relExtra []string
	switch place {
	case "Packages", "flat-Packages":
		for _, n := range names {
			extra += rawStanza(n)
		}
	case "Release", "Release-index":
		relExtra = names
	case "Sources-file", "Sources-dir":
		t := ""
		for _, n := range names {
			if place == "Sources-file" {
				t += rawSource("pool/src", n)
			} else {
				t += rawSource(n, "x")
			}
		}
		s.indices = append(s.indices, rindex{rel: "main/source/Sources", raw: []byte(t)})
	case "Index":
		t := "SHA1:\n"
		for _, n := range names {
			t += fmt.Sprintf(" %s %d %s\n", hexsum("SHA1", []byte(evil)), len(evil), n)
		}
		s.indices = append(s.indices, rindex{rel: "main/i18n/Index", raw: []byte(t)})
	}
	if extra != "" {
		s.indices[0].raw = append(append([]byte(nil), good...), "\n"+extra...)
	}
	if place == "flat-Packages" {
		s.dir = "."
		for i := range s.indices {
			s.indices[i].rel = path.Base(s.indices[i].rel)
		}
	}
	files := r.files()
	if len(relExtra) > 0 {
		// add entries to the Release file
		p := "dists/s/Release"
		var out []string
		body := evil
		for _, l := range strings.Split(string(files[p]), "\n") {
			out = append(out, l)
			for _, k := range allSums {
				if l == k+":" {
					for _, n := range relExtra {
						if place == "Release-index" {
							n += "/Packages"
						}
						out = append(out, fmt.Sprintf(" %s %d %s", hexsum(k, []byte(body)), len(body), n))
					}
				}
			}
		}
		files[p] = []byte(strings.Join(out, "\n"))
	}
	return &mver{repo: r, files: files}
}

func (k *mkit) serveEvil() {
	k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
		if rep.Status != 404 || isRelease(p) {
			return
		}
		*rep = vhttp.Reply{Status: 200, Body: []byte(evil)}
	}
}

var m12spec = &mspec{id: "m", suites: []string{"s"}, sections: []string{"main"}, archs: []string{"amd64"}, source: true}
var m12flat = &mspec{id: "m", suites: []string{"./"}, source: true}

type m12state struct {
	out  string
	n    map[string]string
	m    map[string]string
	info string
}

func m12prep(x *explore.X, k *mkit, fresh bool) *m12state {
	x.Freeze(true)
	base := map[string]*mver{"n": verN("1")}
	if !fresh {
		base["m"] = smallVer("m", "1", false)
		if k.specs[0] == m12flat {
			v := hostileVer("1", "flat-Packages", nil, false)
			base["m"] = v
		}
	}
	prep(k, base)
	putSentinels(k.fs)
	st := &m12state{out: outside(k.fs), n: k.tree("n"), m: k.tree("m")}
	st.info = k.infoN()
	x.Freeze(false)
	return st
}

func (k *mkit) infoN() string {
	b, _ := k.fs.Read(mdir + "/" + nDir + "/info.json")
	l, _ := k.fs.Read(mdir + "/.lock")
	n := k.fs.Node(mdir+"/n", false)
	t := ""
	if n != nil && n.IsLink() {
		t = n.Target()
	}
	nd := k.fs.Node(mdir+"/"+nDir, false)
	var names []string
	if nd != nil {
		names = nd.Names()
	}
	return fmt.Sprintf("info.json %s; .lock %q %v; n -> %s; %v", b, l, k.fs.Node(mdir+"/.lock", false) != nil, t, names)
}

func (st *m12state) check(x *explore.X, k *mkit, err error, place string, names []string, when string) {
	if o := outside(k.fs); o != st.out {
		x.Failf("escape", "%s: something outside of the mirror directory changed: %s", when, diffLines(st.out, o))
	}
	if t := k.tree("n"); !sameTree(t, st.n) {
		x.Failf("other-mirror", "%s: the published tree of another mirror changed: %s", when, diffTree(t, st.n))
	}
	if i := k.infoN(); i != st.info {
		x.Failf("other-mirror", "%s: lock, link or file list of another mirror changed: %q, was %q", when, i, st.info)
	}
	for _, e := range k.top() {
		n := k.fs.Node(mdir+"/"+e, false)
		switch {
		case e == ".lock" && !n.IsLink() && !n.IsDir():
		case (e == "m" || e == "n") && n.IsLink():
		case (strings.HasPrefix(e, ".m.") || strings.HasPrefix(e, ".n.")) && n.IsDir():
			for _, s := range n.Names() {
				if s != "info.json" && s != e[1:2] {
					x.Failf("escape", "%s: unexpected file %s/%s", when, e, s)
				}
			}
		default:
			x.Failf("escape", "%s: unexpected entry %s in the mirror directory", when, e)
		}
	}
	t := k.tree("m")
	if err != nil {
		if !sameTree(t, st.m) && !(st.m == nil && t == nil) {
			x.Failf("changed", "%s: the update failed (%v) but the published mirror changed: %s", when, err, diffTree(t, st.m))
		}
		return
	}
	if tgt, _ := resolve(k.fs, mdir+"/m"); !strings.HasPrefix(tgt, mdir+"/.m.") {
		x.Failf("escape", "%s: the public link leads to %s", when, tgt)
	}
	// everything that is part of the healthy repository has its own content
	for p, b := range k.cur["m"].files {
		if strings.HasPrefix(p, "pool/") && t[p] != string(b) {
			x.Failf("content", "%s: the update succeeded but %s is %q, want %q", when, p, clip(t[p]), clip(string(b)))
		}
	}
	for _, n := range names {
		n = realHash(n)
		q := path.Clean("/" + k.listedAs(place, n))[1:]
		if isRelease(n) || k.cur["m"].files[q] != nil {
			continue // answered with 404, or listed in Release with other content
		}
		if t[q] != evil {
			x.Failf("not-inside", "%s: the update succeeded but the mirror has %q for the listed file %s", when, clip(t[q]), q)
		}
	}
}

// listedAs is the path, relative to the repository, that name stands for.
func (k *mkit) listedAs(place, name string) string {
	switch place {
	case "Release":
		return "dists/s/" + path.Clean(name)
	case "Release-index":
		return "dists/s/" + path.Clean(name+"/Packages")
	case "Sources-file":
		return "pool/src/" + name
	case "Sources-dir":
		return name + "/x"
	case "Index":
		return "dists/s/main/i18n/" + path.Clean(name)
	}
	return path.Clean(name)
}

// m12judge runs an update against the hostile version and judges it.
func m12judge(x *explore.X, k *mkit, st *m12state, place string, names []string) error {
	k.serveEvil()
	err := k.run("m")
	if short(err) == "killed" {
		x.Failf("killed", "the process died")
	}
	st.check(x, k, err, place, names, fmt.Sprintf("names %q in %s (error %v)", names, place, short(err)))
	x.Outcome("%s err=%v", place, errClass(err))
	return err
}

func errClass(err error) string {
	if err == nil {
		return "nil"
	}
	s := err.Error()
	if i := strings.IndexByte(s, '/'); i >= 0 {
		s = s[:i]
	}
	return clip(s)
}

func m12names(x *explore.X) {
	place := places[x.Free(len(places), "place")]
	name := hostile[x.Free(len(hostile), "name")]
	byhash := x.Flag("byhash")
	fresh := x.Flag("first run")
	sp := m12spec
	if place == "flat-Packages" {
		sp = m12flat
	}
	k := newMkit(x, 2, sp, specN)
	x.World(func() {
		st := m12prep(x, k, fresh)
		k.cur = map[string]*mver{"m": hostileVer("2", place, []string{name}, byhash), "n": verN("1")}
		m12judge(x, k, st, place, []string{name})
	})
}

func m12pairs(x *explore.X) {
	place := places[[]int{0, 1, 3}[x.Free(3, "place")]]
	a := hostile[x.Free(len(hostile), "name")]
	b := hostile[x.Free(len(hostile), "second name")]
	byhash := place == "Release" && x.Deep && x.Flag("byhash")
	k := newMkit(x, 2, m12spec, specN)
	x.World(func() {
		st := m12prep(x, k, false)
		k.cur = map[string]*mver{"m": hostileVer("2", place, []string{a, b}, byhash), "n": verN("1")}
		m12judge(x, k, st, place, []string{a, b})
	})
}

var m12idList = []string{"", ".", "..", "/", "../x", "../other", "x/../../y", "a/b", "/etc", "/srv/y", "x/", "x/..", ".x", "x.tmp", ".lock", "n.tmp", "X", "a b", "a.b", "\x00", "a\nb", "n/../x", "n\n", "é", "x/../../../other/y",
	".n.20000101_000000", strings.Repeat("n", 300), "x", "x_1", "x-y", "0", "-", "_", "nn"}

func validID(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
			return false
		}
	}
	return s != ""
}

func m12ids(x *explore.X) {
	id := m12idList[x.Free(len(m12idList), "id")]
	how := x.Free(4, "asked for") // configured and: all, only it, with the other; not configured but asked for
	fresh := x.Flag("first run of n")
	k := newMkit(x, 2, smallSpec, specN)
	x.World(func() {
		x.Freeze(true)
		if !fresh {
			prep(k, one("n", verN("1")))
		}
		putSentinels(k.fs)
		if k.fs.Node("/srv/other", true) == nil {
			k.fs.PutDir("/srv/other")
		}
		out := outside(k.fs)
		n := k.tree("n")
		mc := k.cfg.Mirrors["m"]
		delete(k.cfg.Mirrors, "m")
		if how != 3 {
			k.cfg.Mirrors[id] = mc
		}
		k.cur = map[string]*mver{"m": smallVer("m", "1", false), "n": verN("1")}
		var ask []string
		switch how {
		case 1, 3:
			ask = []string{id}
		case 2:
			ask = []string{"n", id}
		}
		err := k.run(ask...)
		what := fmt.Sprintf("mirror id %q (asked for %q)", id, ask)
		if o := outside(k.fs); o != out {
			x.Failf("escape", "%s: something outside of the mirror directory changed: %s", what, diffLines(out, o))
		}
		if t := k.tree("n"); !sameTree(t, n) && !sameTree(t, k.cur["n"].want) {
			x.Failf("other-mirror", "%s: the published tree of another mirror changed: %s", what, diffTree(t, n))
		}
		if k.fs.Node(mdir+"/.lock", false) == nil {
			x.Failf("escape", "%s: the lock file is gone", what)
		}
		want := validID(id) && len(id) < 200 && how != 3
		if want != (err == nil) {
			x.Failf("ids", "%s: the run ended with %v", what, err)
		}
		if want && !sameTree(k.tree(id), k.cur["m"].want) {
			x.Failf("ids", "%s: %s", what, diffTree(k.tree(id), k.cur["m"].want))
		}
		for _, e := range k.top() {
			switch {
			case e == ".lock", e == "n", strings.HasPrefix(e, ".n."):
			case want && (e == id || strings.HasPrefix(e, "."+id+".")):
			default:
				x.Failf("escape", "%s: unexpected entry %q in the mirror directory", what, e)
			}
		}
		x.Outcome("%v", errClass(err))
	})
}

func m12sequence(x *explore.X) {
	place := places[x.Free(2, "place")]
	a := hostile[x.Free(len(hostile), "name")]
	byhash := x.Flag("byhash")
	mid := x.Free(2, "middle")
	k := newMkit(x, 2, m12spec, specN)
	x.World(func() {
		st := m12prep(x, k, true)
		for i, ver := range []string{"1", "2", "2"} {
			if i == 1 && mid == 1 {
				k.cur = map[string]*mver{"m": smallVer("m", ver, byhash), "n": verN("1")}
				k.fault = nil
				err := k.run("m")
				st.check(x, k, err, place, nil, fmt.Sprintf("healthy run after %q (error %v)", a, short(err)))
			} else {
				k.cur = map[string]*mver{"m": hostileVer(ver, place, []string{a}, byhash), "n": verN("1")}
				m12judge(x, k, st, place, []string{a})
			}
			if x.Failed() {
				return
			}
			st.m = k.tree("m")
			nextSecond()
		}
	})
}

func m12schedule(x *explore.X) {
	names := []string{"../../n/pool/m/a_n1.deb", "../../.lock", "../../../x", "../info.json", "pool/m/a_2.deb/x", "dists/s/main/binary-amd64/Packages"}
	name := names[x.Free(len(names), "name")]
	place := places[x.Free(2, "place")]
	k := newMkit(x, 2, m12spec, specN)
	x.World(func() {
		st := m12prep(x, k, false)
		k.cur = map[string]*mver{"m": hostileVer("2", place, []string{name}, false), "n": verN("1")}
		m12judge(x, k, st, place, []string{name})
	})
}

var _ = sort.Strings
var _ vos.Op
