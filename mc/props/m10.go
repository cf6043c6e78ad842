package props

import (
	"fmt"
	"path"
	"strings"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
)

func init() {
	register("M10", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "names", Doc: "chains of three versions, each with or without by-hash support, over declared checksum kinds (all subsets), Release file names, spellings of Acquire-By-Hash and indices with equal content: canonical and by-hash names are exactly the expected ones and hold exactly the data with that hash",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: m10names,
		},
		&explore.Scenario{
			Name: "two-lists", Doc: "Release and InRelease that announce different versions of every subset of the indices, over declared checksum kinds, the version served under the canonical name, first run and update: both versions have all their by-hash names",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: m10two,
		},
		&explore.Scenario{
			Name: "fallback", Doc: "every combination of wrong content under the canonical name and right, wrong, missing or refused content under each by-hash name, per index, declared checksum kinds, first run and update",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: m10fallback,
		},
		&explore.Scenario{
			Name: "pairs", Doc: "wrong canonical content of every subset of the indices, by-hash names good, missing or failing a number of times first",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: m10pairs,
		},
		&explore.Scenario{
			Name: "moving", Doc: "the upstream moves to the next version before any request after the Release files, keeping old files and by-hash names, with bounded schedules",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: netMask, Weight: 3, Run: m10moving,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "fallback of several indices at once under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: netMask, Weight: 2, Run: m10schedule,
		},
	)
}

// subsets of the checksum kinds, as bits.
func sumSubset(bits int) []string {
	var l []string
	for i, k := range allSums {
		if bits&(1<<i) != 0 {
			l = append(l, k)
		}
	}
	return l
}

func m10repo(ver string, byhash bool, sums []string) *rrepo {
	return &rrepo{suites: []rsuite{{
		dir: "dists/s", names: []string{"Release"}, byhash: byhash, note: "version " + ver, sums: sums,
		indices: []rindex{
			{rel: "main/binary-amd64/Packages", exts: []string{"", ".gz"}, items: []ritem{deb("m", "a", ver), deb("m", "keep", "0")}},
			{rel: "main/i18n/Translation-en", raw: []byte("en " + ver)},
			{rel: "main/i18n/Translation-de", raw: []byte("same")},
			{rel: "main/i18n/Translation-fr", raw: []byte("same")},
		},
	}}}
}

var relNames = [][]string{{"Release"}, {"InRelease"}, {"Release", "InRelease"}, {"Release", "Release.gz", "Release.gpg", "InRelease"}}

func m10names(x *explore.X) {
	sums := sumSubset(1 + x.Free(7, "declared checksums"))
	names := relNames[x.Free(len(relNames), "Release names")]
	hist := x.Free(8, "by-hash of the versions")
	same := x.Flag("versions have equal indices")
	k := newMkit(x, 1+x.Free(2, "conns"), smallSpec)
	x.World(func() {
		x.Freeze(true)
		for i := 0; i < 3; i++ {
			ver := fmt.Sprint(i)
			if same {
				ver = "0"
			}
			bh := hist&(1<<i) != 0
			r := m10repo(ver, bh, sums)
			r.suites[0].names = names
			r.suites[0].note += fmt.Sprint(i, bh)
			v := newVer(smallSpec, r)
			k.cur = one("m", v)
			if err := k.run(); err != nil {
				x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
				return
			}
			t := k.tree("m")
			if !sameTree(t, v.want) {
				x.Failf("tree", "run %d (by-hash %v): %s", i, bh, diffTree(t, v.want))
				return
			}
			byhashNames(x, t, bh)
			nextSecond()
		}
		x.Outcome("%v %v %03b", sums, names, hist)
	})
}

// byhashNames checks the names of a published tree on their own.
func byhashNames(x *explore.X, t map[string]string, bh bool) {
	for p, b := range t {
		if i := strings.Index(p, "/by-hash/"); i >= 0 {
			f := strings.Split(p[i+len("/by-hash/"):], "/")
			if !bh {
				x.Failf("by-hash-unsupported", "the repository does not support by-hash but %s was published", p)
			}
			if len(f) != 2 || hexsum(f[0], []byte(b)) != f[1] {
				x.Failf("by-hash-content", "%s holds other data", p)
			}
			continue
		}
		if !bh || !strings.HasPrefix(p, "dists/") || isRelease(p) {
			continue
		}
		for _, kd := range allSums {
			q := path.Join(path.Dir(p), "by-hash", kd, hexsum(kd, []byte(b)))
			if t[q] != b {
				x.Failf("by-hash-missing", "%s is missing for %s", q, p)
			}
		}
	}
}

// replies with which a name can disappoint.
func wrong(mode string, rep *vhttp.Reply, old []byte) {
	switch mode {
	case "stale":
		*rep = vhttp.Reply{Status: 200, Body: old}
	case "same-size":
		b := append([]byte(nil), rep.Body...)
		b[0] ^= 1
		*rep = vhttp.Reply{Status: 200, Body: b}
	case "empty":
		*rep = vhttp.Reply{Status: 200}
	case "longer":
		*rep = vhttp.Reply{Status: 200, Body: append(append([]byte(nil), rep.Body...), '\n')}
	case "404":
		*rep = vhttp.Reply{Status: 404, Body: []byte("gone")}
	case "403":
		*rep = vhttp.Reply{Status: 403, Body: []byte("no")}
	case "503x2":
		*rep = vhttp.Reply{Status: 503, Body: []byte("busy")}
	}
}

// m10two: a repository in the middle of an update, whose Release and InRelease
// files are of different versions.  By-hash names make both usable.
func m10two(x *explore.X) {
	idxs := []string{"main/binary-amd64/Packages", "main/binary-amd64/Packages.gz", "main/i18n/Translation-en", "main/i18n/Translation-de"}
	sub := x.Free(1<<len(idxs), "indices announced differently")
	served := x.Free(3, "served under the canonical names") // Release's, InRelease's, mixed
	sums := [][]string{allSums, {"SHA256"}, {"MD5Sum", "SHA256"}, {"MD5Sum"}, {"SHA1"}}[x.Free(5, "declared checksums")]
	prev := x.Free(3, "published before") // none, Release's version, an older one
	conns := 1 + x.Free(2, "conns")*3
	desc := x.Flag("map order")
	k := newMkit(x, conns, smallSpec)
	x.RunWorld(&vsched.World{Mask: x.Sc.Mask, MapDesc: desc}, func() {
		x.Freeze(true)
		v1, v2 := m10repo("1", true, sums), m10repo("2", true, sums)
		f1, f2 := v1.files(), v2.files()
		var all [2]map[string][]byte
		rel := [2]map[string][]byte{{}, {}}
		all[0], all[1] = f1, f2
		for n, b := range v1.suites[0].listed() {
			rel[0][n], rel[1][n] = b, b
			for i, m := range idxs {
				if m == n && sub&(1<<i) != 0 {
					rel[1][n] = f2["dists/s/"+n]
					if string(b) == string(rel[1][n]) {
						rel[1][n] = []byte("differs")
					}
				}
			}
		}
		files := map[string][]byte{}
		for p, b := range f1 {
			files[p] = b
		}
		for p, b := range f2 {
			if files[p] == nil {
				files[p] = b
			}
		}
		files["dists/s/Release"] = releaseText(rel[0], sums, "one", true)
		files["dists/s/InRelease"] = releaseText(rel[1], sums, "two", true)
		want := map[string]string{}
		for i := range rel {
			for n, b := range rel[i] {
				p := "dists/s/" + n
				use := i == 0
				if served == 1 || served == 2 && len(n)%2 == 0 {
					use = i == 1
				}
				if use {
					files[p] = b
				}
				for _, kd := range allSums {
					q := path.Join(path.Dir(p), "by-hash", kd, hexsum(kd, b))
					files[q] = b
					want[q] = string(b)
				}
			}
		}
		switch prev {
		case 1:
			prep(k, one("m", newVer(smallSpec, v1)))
		case 2:
			prep(k, one("m", newVer(smallSpec, m10repo("0", true, sums))))
		}
		k.cur = one("m", &mver{repo: v2, files: files})
		err := k.run()
		what := fmt.Sprintf("Release and InRelease differ in indices %04b (checksums %v)", sub, sums)
		if err != nil {
			x.Failf("not-used", "%s, all by-hash names are served, but the update failed: %v", what, err)
			return
		}
		t := k.tree("m")
		for q, b := range want {
			if t[q] != b {
				x.Failf("by-hash-missing", "%s: %s is %q, want %q", what, q, clip(t[q]), clip(b))
				return
			}
		}
		for n := range rel[0] {
			if c := t["dists/s/"+n]; c != string(rel[0][n]) && c != string(rel[1][n]) {
				x.Failf("tree", "%s: dists/s/%s is %q", what, n, clip(c))
			}
		}
		for p := range t {
			if i := strings.Index(p, "/by-hash/"); i >= 0 {
				f := strings.Split(p[i+len("/by-hash/"):], "/")
				if hexsum(f[0], []byte(t[p])) != f[1] {
					x.Failf("by-hash-content", "%s: %s holds other data", what, p)
				}
			}
		}
		items := []string{"pool/m/a_1.deb", "pool/m/keep_0.deb"}
		if sub&3 != 0 {
			items = append(items, "pool/m/a_2.deb")
		}
		for _, p := range items {
			if t[p] != string(files[p]) {
				x.Failf("tree", "%s: %s is %q", what, p, clip(t[p]))
			}
		}
		x.Outcome("%04b", sub)
	})
}

func m10fallback(x *explore.X) {
	sums := sumSubset(1 + x.Free(7, "declared checksums"))
	idx := []string{"main/binary-amd64/Packages", "main/binary-amd64/Packages.gz", "main/i18n/Translation-en"}[x.Free(3, "index")]
	canon := []string{"stale", "same-size", "empty", "longer"}[x.Free(4, "canonical")]
	mode := map[string]string{}
	right := false
	for _, s := range sums {
		mode[s] = []string{"", "404", "same-size", "stale", "403"}[x.Free(5, "by-hash "+s)]
		right = right || mode[s] == ""
	}
	fresh := x.Flag("first run")
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		x.Freeze(true)
		old := newVer(smallSpec, m10repo("1", true, sums))
		v := newVer(smallSpec, m10repo("2", true, sums))
		if !fresh {
			prep(k, one("m", old))
		}
		before := k.tree("m")
		k.cur = one("m", v)
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
			ob := old.files["dists/s/"+idx]
			if p == "dists/s/"+idx {
				wrong(canon, rep, ob)
			} else if strings.HasPrefix(p, "dists/s/"+path.Dir(idx)+"/by-hash/") {
				for _, s := range sums {
					if path.Base(p) == hexsum(s, v.files["dists/s/"+idx]) {
						wrong(mode[s], rep, ob)
					}
				}
			}
		}
		err := k.run()
		t := k.tree("m")
		what := fmt.Sprintf("index %s: %s under the canonical name, by-hash %v", idx, canon, mode)
		switch {
		case err != nil && right:
			x.Failf("not-used", "%s: the update failed although a by-hash name has the announced content: %v", what, err)
		case err == nil && !sameTree(t, v.want):
			x.Failf("tree", "%s: the update succeeded but %s", what, diffTree(t, v.want))
		case err == nil && !right:
			x.Failf("tree", "%s: the update succeeded without the announced content", what)
		case err != nil && !sameTree(t, before):
			x.Failf("changed", "%s: the update failed but %s", what, diffTree(t, before))
		}
		if err == nil {
			byhashNames(x, t, true)
		}
		x.Outcome("%v %v", right, err == nil)
	})
}

func m10pairs(x *explore.X) {
	idxs := []string{"main/binary-amd64/Packages", "main/binary-amd64/Packages.gz", "main/i18n/Translation-en", "main/i18n/Translation-de", "main/i18n/Translation-fr"}
	sub := x.Free(1<<len(idxs), "indices with wrong canonical content")
	bh := []string{"", "sha256-missing", "only-md5", "503-first", "cut-first", "refused-first"}[x.Free(6, "by-hash names")]
	prev := []string{"none", "with by-hash", "without by-hash"}[x.Free(3, "published before")]
	conns := 1 + x.Free(3, "conns")
	k := newMkit(x, conns, smallSpec)
	x.World(func() {
		x.Freeze(true)
		old := newVer(smallSpec, m10repo("1", prev == "with by-hash", nil))
		v := newVer(smallSpec, m10repo("2", true, nil))
		if prev != "none" {
			prep(k, one("m", old))
		}
		k.cur = one("m", v)
		seen := map[string]int{}
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
			seen[p]++
			for i, n := range idxs {
				if p == "dists/s/"+n && sub&(1<<i) != 0 {
					wrong("same-size", rep, nil)
				}
			}
			if !strings.Contains(p, "/by-hash/") {
				return
			}
			first := seen[p] <= 2
			switch {
			case bh == "sha256-missing" && strings.Contains(p, "/SHA256/"), bh == "only-md5" && !strings.Contains(p, "/MD5Sum/"):
				wrong("404", rep, nil)
			case bh == "503-first" && first:
				wrong("503x2", rep, nil)
			case bh == "cut-first" && first:
				rep.CutAt = 1
			case bh == "refused-first" && first:
				rep.Status = 0
			}
		}
		err := k.run()
		if err != nil {
			x.Failf("not-used", "wrong canonical content (indices %05b), by-hash names %q: the update failed: %v", sub, bh, err)
			return
		}
		if t := k.tree("m"); !sameTree(t, v.want) {
			x.Failf("tree", "wrong canonical content (indices %05b), by-hash names %q: %s", sub, bh, diffTree(t, v.want))
		}
		x.Outcome("%05b", sub)
	})
}

func m10moving(x *explore.X) {
	prev := x.Flag("update")
	at := 1 + x.Free(18, "upstream moves before request")
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		old := newVer(smallSpec, m10repo("1", true, nil))
		v1 := newVer(smallSpec, m10repo("2", true, nil))
		v2 := newVer(smallSpec, m10repo("3", true, nil))
		x.Freeze(true)
		if prev {
			prep(k, one("m", old))
		}
		x.Freeze(false)
		k.cur = one("m", v1)
		n, moved := 0, false
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
			if isRelease(p) {
				return
			}
			n++
			moved = moved || n == at
			if !moved {
				return
			}
			// canonical names show the new version, the rest stays available
			if b, ok := v2.files[p]; ok {
				*rep = vhttp.Reply{Status: 200, Body: b}
			}
		}
		err := k.run()
		if err != nil {
			x.Failf("not-used", "the upstream moved on before request %d but kept by-hash names: the update failed: %v", at, err)
			return
		}
		if t := k.tree("m"); !sameTree(t, v1.want) {
			x.Failf("tree", "the upstream moved on before request %d: %s", at, diffTree(t, v1.want))
		}
		x.Outcome("%v moved=%v", prev, moved)
	})
}

func m10schedule(x *explore.X) {
	prev := x.Flag("update")
	sums := sumSubset([]int{7, 4}[x.Free(2, "declared checksums")])
	k := newMkit(x, 1+x.Free(2, "conns")*2, smallSpec)
	x.World(func() {
		old := newVer(smallSpec, m10repo("1", true, sums))
		v := newVer(smallSpec, m10repo("2", true, sums))
		x.Freeze(true)
		if prev {
			prep(k, one("m", old))
		}
		x.Freeze(false)
		k.cur = one("m", v)
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
			if strings.HasPrefix(p, "dists/") && !isRelease(p) && !strings.Contains(p, "/by-hash/") {
				wrong("same-size", rep, nil)
			}
		}
		err := k.run()
		if err != nil {
			x.Failf("not-used", "the update failed although the by-hash names have the announced content: %v", err)
			return
		}
		if t := k.tree("m"); !sameTree(t, v.want) {
			x.Failf("tree", "%s", diffTree(t, v.want))
		}
		x.Outcome("%v", prev)
	})
}
