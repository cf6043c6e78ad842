package props

import (
	"crypto/sha256"
	"fmt"
	"net/http"
	"net/url"
	"path"
	"strconv"
	"strings"
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
)

// Scenarios with files larger than any buffer in the code or its libraries.

var largeSizes = []int{4095, 4096, 4097, 32<<10 - 1, 32 << 10, 32<<10 + 1, 64<<10 - 1, 64 << 10, 64<<10 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 2<<20 + 12345}

var largeMemo = map[string]string{}

// noise returns n bytes that do not repeat, hexadecimal if text.
func noise(seed string, n int, text bool) string {
	key := fmt.Sprint(seed, n, text)
	if s, ok := largeMemo[key]; ok {
		return s
	}
	var b strings.Builder
	h := sha256.Sum256([]byte(seed))
	for b.Len() < n {
		if text {
			fmt.Fprintf(&b, "%x\n ", h)
		} else {
			b.Write(h[:])
		}
		h = sha256.Sum256(h[:])
	}
	s := b.String()[:n]
	if text { // must not end between the line end and the space
		s = s[:n-2] + " ."
	}
	largeMemo[key] = s
	return s
}

var largeKinds = []string{"item", "packages", "packages.gz", "translation", "release"}

// largeRepo is a repository where the file of the given kind is of size n, or
// slightly larger if it is compressed.
func largeRepo(kind string, n int, ver string) *rrepo {
	r := crepo(ver)
	s := &r.suites[0]
	s.indices = append(s.indices, rindex{rel: "main/i18n/Translation-en", raw: []byte("translation of version " + ver)})
	ix := &s.indices[0]
	ix.items = append(ix.items, it(cLast, "last of version "+ver))
	pad := func(b []byte, n int) []byte { // in the first stanza
		const field = "Description: x\n "
		i := strings.Index(string(b), "\n\n") + 1
		return []byte(string(b[:i]) + field + noise(ver, n-len(b)-len(field)-1, true) + "\n" + string(b[i:]))
	}
	switch kind {
	case "item":
		ix.items[0].body = noise(ver, n, false)
	case "packages":
		ix.raw = pad(packages(ix.items), n)
	case "packages.gz": // text of twice the size compresses to about n
		ix.raw = pad(packages(ix.items), 2*n)
	case "translation":
		s.indices[1].raw = []byte(noise(ver, n, false))
	case "release":
		s.note = "version " + ver + "\n " + noise(ver, n-2000, true)
	}
	return r
}

// cLast is the last item of the large index.
const cLast = "pool/last.deb"

var largeVers = map[string]*cver{}

func largeVer(kind string, n int, ver string) *cver {
	key := fmt.Sprint(kind, n, ver)
	if largeVers[key] == nil {
		largeVers[key] = newCver(largeRepo(kind, n, ver))
	}
	return largeVers[key]
}

func largeCacher(x *explore.X) {
	kind := largeKinds[x.Free(len(largeKinds), "kind")]
	n := largeSizes[x.Free(len(largeSizes), "size")]
	restart := x.Flag("restart")
	k := newCkit(x)
	k.cfg.CacheCapacity = 1 << 20
	k.cfg.CachePeriod = 1
	files := []string{cRel, cPkg, cPkg + ".gz", "dists/s/main/i18n/Translation-en", cItem, cKeep}
	x.World(func() {
		check := func(v *cver, when string) {
			for _, f := range files {
				want := string(v.files[f])
				r := k.get("/u/" + f)
				if x.Failed() {
					return
				}
				if r.status != 200 || r.body != want {
					x.Failf("large", "%s: GET %s (%d bytes): status %d, %d bytes, first difference at %d", when, f, len(want), r.status, len(r.body), diffAt(r.body, want))
					return
				}
				r = k.do("HEAD", "/u/"+f)
				if !x.Failed() && (r.status != 200 || r.hdr.Get("Content-Length") != strconv.Itoa(len(want))) {
					x.Failf("large-head", "%s: HEAD %s (%d bytes): status %d, Content-Length %s", when, f, len(want), r.status, r.hdr.Get("Content-Length"))
				}
				for _, at := range []int{1, len(want) / 2, len(want) - 1} {
					r = k.sendURL("GET", &url.URL{Path: "/u/" + f}, http.Header{"Range": {fmt.Sprintf("bytes=%d-", at)}})
					if !k.answered(r) {
						return
					}
					if r.status != 206 && r.status != 200 {
						x.Failf("large-range", "%s: range from %d of %s: status %d", when, at, f, r.status)
					} else if r.status == 206 && r.body != want[at:] || r.status == 200 && r.body != want {
						x.Failf("large-range", "%s: range from %d of %s (%d bytes): status %d with %d bytes of something else", when, at, f, len(want), r.status, len(r.body))
					}
				}
			}
		}
		v := largeVer(kind, n, "1")
		k.publish("u", v.files)
		if !k.mustStart() {
			return
		}
		check(v, "first")
		if x.Failed() {
			return
		}
		reqs := len(k.up.Log)
		if restart {
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) { *rep = vhttp.Reply{} }
		check(v, "with the upstream down")
		if x.Failed() {
			return
		}
		for _, r := range k.up.Log[reqs:] {
			if _, p := k.split(r); !strings.HasSuffix(p, "Release") && !strings.HasSuffix(p, "Release.gpg") {
				x.Failf("large-refetch", "%s is fetched although it is cached and valid", p)
				return
			}
		}
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			if strings.HasSuffix(p, cLast) && rep.Status == 200 {
				rep.Body = []byte("LAST of version 1")
			}
		}
		if r := k.get("/u/" + cLast); !x.Failed() && r.status == 200 {
			x.Failf("large-unchecked", "%s contradicts the served Packages file, but is served: %s", cLast, r)
			return
		}
		// a new version
		k.fault = nil
		v = largeVer(kind, n, "2")
		k.publish("u", v.files)
		vsched.Sleep(time.Duration(k.cfg.CheckInterval)*3*time.Second + time.Minute)
		check(v, "after a refresh")
		x.Outcome("%s %d requests", kind, len(k.up.Log))
	})
}

func diffAt(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

var largeSpec = &mspec{id: "m", suites: []string{"s"}, sections: []string{"main"}, archs: []string{"amd64"}}

var largeMvers = map[string]*mver{}

func largeMver(kind string, n int, ver string) *mver {
	key := fmt.Sprint(kind, n, ver)
	if largeMvers[key] == nil {
		r := largeRepo(kind, n, ver)
		largeMvers[key] = newVer(largeSpec, r)
	}
	return largeMvers[key]
}

// largeMirror mirrors version 1 twice, then version 2.
func largeMirror(x *explore.X) {
	kind := largeKinds[x.Free(len(largeKinds), "kind")]
	n := largeSizes[x.Free(len(largeSizes), "size")]
	flaky := x.Flag("transfers break at first")
	k := newMkit(x, 2, largeSpec)
	x.World(func() {
		name := ""
		for _, ver := range []string{"1", "1", "2"} {
			v := largeMver(kind, n, ver)
			k.cur = one("m", v)
			k.watchReuse("m", v)
			broken := map[string]bool{}
			k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
				if flaky && rep.Status == 200 && !broken[p] && !isRelease(p) {
					broken[p] = true
					rep.CutAt = len(rep.Body)
				}
			}
			name += " " + ver
			if err := k.run(); err != nil {
				if flaky {
					return
				}
				x.Failf("run-failed", "%s of %d bytes: a run against a healthy upstream failed (versions%s): %v", kind, n, name, err)
				return
			}
			if got := k.tree("m"); !sameTree(got, v.want) {
				x.Failf("tree", "%s of %d bytes: after versions%s the tree is not complete: %s", kind, n, name, diffSizes(got, v.want))
				return
			}
			nextSecond()
		}
		x.Outcome("%s %d requests", kind, len(k.up.Log))
	})
}

func diffSizes(got, want map[string]string) string {
	var l []string
	for _, p := range sortedKeys(want) {
		if g, ok := got[p]; !ok {
			l = append(l, "missing "+p)
		} else if g != want[p] {
			l = append(l, fmt.Sprintf("%s has %d bytes instead of %d, first difference at %d", path.Base(p), len(g), len(want[p]), diffAt(g, want[p])))
		}
	}
	for _, p := range sortedKeys(got) {
		if _, ok := want[p]; !ok {
			l = append(l, "extra "+p)
		}
	}
	return strings.Join(l, "; ")
}
