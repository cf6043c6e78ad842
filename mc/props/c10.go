package props

import (
	"fmt"
	"net/http"
	"net/url"
	"path"
	"strconv"
	"strings"
	"time"

	"github.com/cybozu-go/aptutil/cacher"
	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
)

func init() {
	big := 10000000
	register("C10", "model_checking", cacherAssume,
		&explore.Scenario{
			Name: "files", Doc: "files with every kind of name and content, requested by every sequence of 3 GET and HEAD requests, after a restart or not",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c10files,
		},
		&explore.Scenario{
			Name: "status", Doc: "every upstream status from 200 to 999, informational ones and connection failures, GET and HEAD, twice in every order, while it is remembered and afterwards",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c10status,
		},
		&explore.Scenario{
			Name: "methods", Doc: "other methods on every kind of path: 501, nothing fetched or changed",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c10methods,
		},
		&explore.Scenario{
			Name: "refused", Doc: "indices in unsupported compressions and paths below prefixes that are not mapped: 404, nothing fetched",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c10refused,
		},
		&explore.Scenario{
			Name: "paths", Doc: "every path of up to 5 (thorough 7) characters over an alphabet of 13 (separators, dots, prefix, NUL, percent, query, non-UTF-8 and control characters), and odd long ones; upstream has everything, or nothing",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: big, Weight: 4, Run: c10paths,
		},
		&explore.Scenario{
			Name: "headers", Doc: "range and conditional requests, well-formed or not: no panic, complete bodies with 200, correct parts with 206",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c10headers,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "HEAD and GET of the same file at once under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: cMask, Run: c10schedule,
		},
		&explore.Scenario{
			Name: "large", Doc: "files of 13 sizes around 4 KiB, 32 KiB, 64 KiB, 1 MiB and 2 MiB (item, Packages, Packages.gz, Translation, Release): GET, HEAD and range requests, while the upstream is up, down, and changed",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: 10000000, Run: largeCacher,
		},
	)
	register("C11", "model_checking", cacherAssume,
		&explore.Scenario{
			Name: "urls", Doc: "every path of up to 3 (thorough 4) components over an alphabet of 22, with doubled, leading and trailing slashes, for 16 base URLs: the URLs that are fetched",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: big, Weight: 3, Run: c11urls,
		},
		&explore.Scenario{
			Name: "served", Doc: "clients get the file of exactly the requested path, pairs of paths in one cacher",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: big, Run: c11served,
		},
		&explore.Scenario{
			Name: "prefixes", Doc: "every prefix of up to 3 characters over an alphabet of 16, and overlapping prefixes",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: big, Run: c11prefixes,
		},
		&explore.Scenario{
			Name: "refresh", Doc: "URLs fetched by refreshes, also after restarts",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c11refresh,
		},
	)
}

var c10contents = []string{"", "plain text\n", "<html><body>x</body></html>", "\x1f\x8b\x08\x00\x00", "\xef\xbb\xbftext", strings.Repeat("\x00\x01\xfe", 400), strings.Repeat("line\n", 300), "%PDF-1.4", "!<arch>\ndebian"}
var c10names = []string{"pool/a.deb", "a.html", "dir/index.html", "x.txt", "noext", ".hidden", "dists/s/Release", cPkg, cPkg + ".gz", "sp ace", "x.css", "x.svg", "x.json", "x.tar.xz", "a.dsc", "x.gz"}

func hdrOf(r *cresp) string {
	return fmt.Sprintf("%d type %q length %q", r.status, r.hdr.Get("Content-Type"), r.hdr.Get("Content-Length"))
}

// contract checks one response against the contract; want is the file or nil.
func contract(x *explore.X, r *cresp, want *string) {
	if x.Failed() {
		return
	}
	if r.method == "HEAD" && r.body != "" {
		x.Failf("head-body", "%s has a body", r)
	}
	if r.method == "GET" && r.status >= 200 && r.status != 204 && r.status != 304 && r.hdr.Get("Content-Length") != strconv.Itoa(len(r.body)) {
		x.Failf("length", "%s: Content-Length is %q", r, r.hdr.Get("Content-Length"))
	}
	if want != nil {
		if r.status != 200 {
			x.Failf("status", "%s instead of the file", r)
			return
		}
		if r.method == "GET" && r.body != *want {
			x.Failf("body", "%s instead of %q", r, clip(*want))
		}
		if r.hdr.Get("Content-Length") != strconv.Itoa(len(*want)) {
			x.Failf("length", "%s: Content-Length is %q instead of %d", r, r.hdr.Get("Content-Length"), len(*want))
		}
		for _, h := range []string{"Content-Encoding", "Content-Range", "Location"} {
			if v := r.hdr.Get(h); v != "" {
				x.Failf("header", "%s with %s: %s", r, h, v)
			}
		}
	}
}

func c10files(x *explore.X) {
	name := c10names[x.Free(len(c10names), "name")]
	body := c10contents[x.Free(len(c10contents), "content")]
	k := newCkit(x)
	if len(body) > 100 {
		k.cfg.CacheCapacity = 100
	}
	x.World(func() {
		k.publish("u", map[string][]byte{name: []byte(body)})
		if !k.mustStart() {
			return
		}
		first := ""
		for i := 0; i < 3 && !x.Failed(); i++ {
			if i > 0 && x.Free(2, "restart") == 1 {
				k.stop()
				if !k.mustStart() {
					return
				}
			}
			r := k.do([]string{"GET", "HEAD"}[x.Free(2, "method")], "u/"+name)
			contract(x, r, &body)
			if first == "" {
				first = hdrOf(r)
			}
			if hdrOf(r) != first {
				x.Failf("differs", "%s %s answers %s, before it was %s", r.method, r.path, hdrOf(r), first)
			}
		}
		x.Outcome("%s", first)
	})
}

func c10status(x *explore.X) {
	var statuses []int
	for s := 200; s < 1000; s++ {
		if s == 226 {
			statuses = append(statuses, 0, 100, 101, 102, 103, 199)
		}
		statuses = append(statuses, s)
	}
	s := statuses[x.Free(len(statuses), "status")]
	name := []string{"pool/a.deb", "dists/s/Release", cPkg + ".gz"}[x.Free(3, "file")]
	body := []string{"", "error page", "<html>error</html>"}[x.Free(3, "body")]
	m1, m2 := x.Free(2, "first"), x.Free(2, "second")
	ms := []string{"GET", "HEAD"}
	k := newCkit(x)
	k.cfg.CachePeriod = 5
	x.World(func() {
		if !k.mustStart() {
			return
		}
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			*rep = vhttp.Reply{Status: s, Body: []byte(body)}
		}
		first := ""
		for i, m := range []string{ms[m1], ms[m2], ms[m1]} {
			if i == 2 {
				vsched.Sleep(6 * time.Second)
			}
			r := k.do(m, "u/"+name)
			if x.Failed() {
				return
			}
			if s == 200 {
				contract(x, r, &body)
			} else {
				contract(x, r, nil)
			}
			if s >= 400 && r.status != s {
				x.Failf("status", "%s, but the upstream answered %d", r, s)
			}
			if s != 200 && r.status == 200 {
				x.Failf("status", "%s, but the upstream answered %d", r, s)
			}
			if first == "" {
				first = hdrOf(r)
			}
			if hdrOf(r) != first {
				x.Failf("differs", "%s answers %s, before it was %s (upstream status %d)", r, hdrOf(r), first, s)
			}
		}
		x.Outcome("%s", first)
	})
}

// c10all publishes a repository, starts and caches some of it.
func c10all(x *explore.X, k *ckit) bool {
	k.publish("u", cver0("1").files)
	if !k.mustStart() {
		return false
	}
	k.get("u/" + cRel)
	k.get("u/" + cPkg)
	k.get("u/" + cItem)
	return !x.Failed()
}

func c10methods(x *explore.X) {
	ms := []string{"POST", "PUT", "DELETE", "OPTIONS", "PATCH", "CONNECT", "TRACE", "get", "Get", "head", "PROPFIND", "GET ", " GET", "GETT", "PRI", "PURGE", "LINK"}
	m := ms[x.Free(len(ms), "method")]
	ps := []string{"u/" + cItem, "u/" + cKeep, "u/" + cRel, "u/" + cPkg, "u/" + cPkg + ".gz", "u/" + cPkg + ".lzma", "v/x", "", "/", "u", "u/", "*", "u/none"}
	p := ps[x.Free(len(ps), "path")]
	k := newCkit(x)
	x.World(func() {
		if !c10all(x, k) {
			return
		}
		n := len(k.up.Log)
		before := k.fs.Tree("/srv")
		r := k.do(m, p)
		if x.Failed() {
			return
		}
		if r.status != 501 {
			x.Failf("method", "%s", r)
		}
		if len(k.up.Log) != n {
			x.Failf("fetched", "%s contacts the upstream", r)
		}
		if after := k.fs.Tree("/srv"); after != before {
			x.Failf("changed", "%s changes files: %s", r, firstDiff(before, after))
		}
		for _, q := range []string{cItem, cRel, cPkg} {
			b := string(k.cur["u"][q])
			contract(x, k.get("u/"+q), &b)
		}
		x.Outcome("ok")
	})
}

func c10refused(x *explore.X) {
	bases := []string{"Release", "InRelease", "Packages", "Sources", "Index", "Release.gpg"}
	exts := []string{".lzma", ".lz"}
	dirs := []string{"", "dists/s/", "dists/s/main/binary-amd64/", "a.gz/"}
	c := x.Free(len(bases)*len(exts)*len(dirs)+20, "path")
	var p string
	if n := len(bases) * len(exts) * len(dirs); c < n {
		p = "u/" + dirs[c%len(dirs)] + bases[c/len(dirs)%len(bases)] + exts[c/len(dirs)/len(bases)]
	} else {
		p = []string{"", "/", "v", "v/x", "uu/x", "U/x", "u.x/y", "u\x00/x", "u /x", " u/x", "../u2/x", "u%2Fx", "u\\x", "u?x", "ü/x", "u:80/x", "http://u/x", "dists/s/Release", "./v", "u/../v/x"}[c-n]
	}
	m := []string{"GET", "HEAD"}[x.Free(2, "method")]
	k := newCkit(x)
	x.World(func() {
		if !c10all(x, k) {
			return
		}
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			*rep = vhttp.Reply{Status: 200, Body: []byte("data")}
		}
		for i := 0; i < 2; i++ {
			n := len(k.up.Log)
			before := k.fs.Tree("/srv")
			r := k.do(m, p)
			if x.Failed() {
				return
			}
			contract(x, r, nil)
			if r.status != 404 {
				x.Failf("not-404", "%s", r)
			}
			if len(k.up.Log) != n {
				x.Failf("fetched", "%s contacts the upstream", r)
			}
			if after := k.fs.Tree("/srv"); after != before {
				x.Failf("changed", "%s changes files: %s", r, firstDiff(before, after))
			}
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		x.Outcome("ok")
	})
}

var c10alphabet = []string{"/", ".", "u", "\x00", "%", "?", "#", " ", "\xff", "\n", "\\", "~", "x"}

func c10paths(x *explore.X) {
	long := []string{strings.Repeat("x", 255), strings.Repeat("x", 256), strings.Repeat("x", 5000), "u/" + strings.Repeat("x", 244), "u/" + strings.Repeat("x", 249), "u/" + strings.Repeat("x", 250), "u/" + strings.Repeat("x", 255),
		"u/" + strings.Repeat("x", 256), "u/" + strings.Repeat("x/", 3000) + "y", "u/" + strings.Repeat("../", 3000) + "u/y", "u" + strings.Repeat("/", 5000) + "y", strings.Repeat("/", 5000), strings.Repeat("u", 70000),
		"u/a.cache", "u/_tmp1", "u/a.cache.cache", "u/.cache", ".cache", "u/x/.cache/y", "u/Release", "u/Release/x", "u/Packages.gz", "u/Packages.gz/Packages.gz", "u/InRelease.gz", "u/.gz", "u/Release.gpg", "u/.gpg", "u/Packages.", "u/Sources.xz", "u/Index.bz2", "u/by-hash/SHA256/x"}
	n := len(c10alphabet)
	depth := 5
	if x.Deep {
		depth = 7
	}
	c := x.Free(n*n+1, "start")
	all := x.Flag("upstream has everything")
	k := newCkit(x, "u", "u.", "x")
	k.cfg.CachePeriod = 0
	x.World(func() {
		x.Freeze(true)
		body := "some data"
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			if all {
				*rep = vhttp.Reply{Status: 200, Body: []byte(body)}
			} else {
				*rep = vhttp.Reply{Status: 404}
			}
		}
		if !k.mustStart() {
			return
		}
		count := 0
		try := func(p string) {
			if x.Failed() {
				return
			}
			count++
			clean := strings.TrimPrefix(path.Clean("/"+p), "/")
			prefix := strings.SplitN(clean, "/", 2)[0]
			mapped := k.cfg.Mapping[prefix] != ""
			before := len(k.up.Log)
			g := k.do("GET", p)
			h := k.do("HEAD", p)
			if x.Failed() {
				return
			}
			contract(x, g, nil)
			contract(x, h, nil)
			switch {
			case !mapped:
				if g.status != 404 || h.status != 404 || len(k.up.Log) != before {
					x.Failf("unmapped", "%s and %s, %d upstream requests, although %q is not mapped", g, h, len(k.up.Log)-before, prefix)
				}
			case all && g.status == 200:
				contract(x, g, &body)
				contract(x, h, &body)
			case all && g.status != 500:
				x.Failf("status", "%s, upstream answers 200", g)
			case !all && g.status != 404:
				x.Failf("status", "%s, upstream answers 404", g)
			}
			if hdrOf(g) != hdrOf(h) {
				x.Failf("differs", "%q: GET answers %s, HEAD %s", p, hdrOf(g), hdrOf(h))
			}
			k.all = k.all[:0]
			k.up.Log = k.up.Log[:0]
		}
		if c == n*n {
			for _, p := range long {
				try(p)
				try("/" + p)
				try(p + "/")
			}
		} else {
			var rec func(p string, left int)
			rec = func(p string, left int) {
				try(p)
				if left == 0 {
					return
				}
				for _, a := range c10alphabet {
					rec(p+a, left-1)
				}
			}
			rec(c10alphabet[c/n]+c10alphabet[c%n], depth-2)
			for _, a := range c10alphabet {
				try(a)
			}
			try("")
		}
		x.Outcome("%d paths", count)
	})
}

func c10headers(x *explore.X) {
	body := "0123456789"
	hs := []http.Header{}
	add := func(kv ...string) {
		h := http.Header{}
		for i := 0; i < len(kv); i += 2 {
			h.Add(kv[i], kv[i+1])
		}
		hs = append(hs, h)
	}
	for _, r := range []string{"bytes=0-0", "bytes=5-", "bytes=-3", "bytes=0-9", "bytes=0-100", "bytes=10-", "bytes=9-0", "bytes=", "bytes=-", "lines=0-1", "bytes=a-b", "bytes=99999999999999999999-", "bytes=0-1,"} {
		add("Range", r)
		add("Range", r, "If-Range", "\"x\"")
		add("Range", r, "If-Range", "Thu, 01 Jan 1970 00:00:00 GMT")
	}
	add("If-None-Match", "*")
	add("If-None-Match", "\"x\"")
	add("If-Match", "*")
	add("If-Match", "\"x\"")
	add("If-Modified-Since", "Thu, 01 Jan 1970 00:00:00 GMT")
	add("If-Modified-Since", "Thu, 01 Jan 2099 00:00:00 GMT")
	add("If-Modified-Since", "x")
	add("If-Unmodified-Since", "Thu, 01 Jan 1970 00:00:00 GMT")
	add("Accept-Encoding", "gzip")
	add("Cache-Control", "no-cache", "Pragma", "no-cache")
	add("Connection", "close", "Host", "other")
	add("Expect", "100-continue")
	h := hs[x.Free(len(hs), "headers")]
	m := []string{"GET", "HEAD"}[x.Free(2, "method")]
	cached := x.Flag("cached")
	k := newCkit(x)
	x.World(func() {
		k.publish("u", map[string][]byte{"pool/x": []byte(body)})
		if !k.mustStart() {
			return
		}
		if cached {
			k.get("u/pool/x")
		}
		r := k.sendURL(m, &url.URL{Path: "/u/pool/x"}, h)
		if !k.answered(r) {
			return
		}
		switch r.status {
		case 200:
			contract(x, r, &body)
		case 206:
			var a, b, n int
			if _, err := fmt.Sscanf(r.hdr.Get("Content-Range"), "bytes %d-%d/%d", &a, &b, &n); err == nil {
				if n != len(body) || a < 0 || a > b || b >= n || m == "GET" && r.body != body[a:b+1] {
					x.Failf("part", "%s %v: %s with Content-Range %q", m, h, r, r.hdr.Get("Content-Range"))
				}
			}
		case 304, 412, 416:
		default:
			x.Failf("status", "%s for %v", r, h)
		}
		x.Outcome("%d", r.status)
	})
}

func c10schedule(x *explore.X) {
	bad := x.Free(3, "upstream") // 200, 404, 503
	name := []string{"pool/a.deb", cRel}[x.Free(2, "file")]
	k := newCkit(x)
	body := "<html>some data"
	x.World(func() {
		if !k.mustStart() {
			return
		}
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			*rep = vhttp.Reply{Status: []int{200, 404, 503}[bad], Body: []byte(body)}
		}
		a, b := k.send("HEAD", "u/"+name), k.send("GET", "u/"+name)
		c := k.send("GET", "u/"+name)
		if !k.answered(a, b, c) {
			return
		}
		for _, r := range []*cresp{a, b, c} {
			if bad == 0 {
				contract(x, r, &body)
			} else {
				contract(x, r, nil)
				if r.status != []int{200, 404, 503}[bad] {
					x.Failf("status", "%s", r)
				}
			}
			if hdrOf(r) != hdrOf(a) {
				x.Failf("differs", "%s and %s", hdrOf(a), hdrOf(r))
			}
		}
		x.Outcome("%s", hdrOf(a))
	})
}

// ---------------------------------------------------------------- C11

var c11bases = []string{"http://h.example", "http://h.example/", "http://h.example/base", "http://h.example/base/", "http://h.example:8080/a/b/c", "https://h.example/base",
	"http://user:pw@h.example/base", "http://h.example/base?q=1", "http://h.example/base#frag", "http://[::1]:80/base/", "http://h.example/a%2Fb", "http://h.example/a%2Fb/", "http://h.example/a%20b", "http://h.example/b%25c/", "http://h.example/b:c/d@e", "http://h.example/base/?"}

var c11tokens = []string{"u", "v", "a", "..", ".", "", "%2e%2e", "%2F", "a b", "x?y=z", "#z", "a:b", "http:", "é", "%", "\\", "h2.example@x", "...", "a+b", ";p", "*", "\x7f"}

// checkURL decides whether an upstream request is the one for p.
func c11check(x *explore.X, base, rest string, r *vhttp.Request) {
	b, err := url.Parse(base)
	if err != nil {
		panic(err)
	}
	u, err := url.Parse(r.Raw)
	if err != nil {
		x.Failf("url", "%q is fetched: %v", r.Raw, err)
		return
	}
	// what is sent to the server
	sent, err := url.ParseRequestURI(u.RequestURI())
	if err != nil {
		x.Failf("url", "%q is fetched, request URI %q: %v", r.Raw, u.RequestURI(), err)
		return
	}
	want := strings.TrimSuffix(b.Path, "/") + "/" + rest
	if r.Scheme != b.Scheme || r.Host != b.Host || u.Host != b.Host || u.Scheme != b.Scheme {
		x.Failf("host", "%q is fetched for %q below %s", r.Raw, rest, base)
	}
	for _, p := range []string{r.Path, u.Path, sent.Path} {
		if p != want && !(rest == "" && p == strings.TrimSuffix(want, "/")) {
			x.Failf("path", "path %q is fetched for %q below %s (%s)", p, rest, base, r.Raw)
		}
	}
	if r.Query != "" || u.RawQuery != "" || sent.RawQuery != "" || u.Fragment != "" {
		x.Failf("query", "%q is fetched for %q below %s", r.Raw, rest, base)
	}
}

func c11urls(x *explore.X) {
	base := c11bases[x.Free(len(c11bases), "base URL")]
	nt := len(c11tokens)
	first := x.Free(nt, "first component")
	depth := 3
	if x.Deep {
		depth = 4
	}
	k := newCkit(x)
	k.cfg.CachePeriod = 0
	k.cfg.Mapping = map[string]string{"u": base, "v": "http://other.example/v"}
	x.World(func() {
		x.Freeze(true)
		k.up.Serve = func(r *vhttp.Request) vhttp.Reply { return vhttp.Reply{Status: 404} }
		if !k.mustStart() {
			return
		}
		count := 0
		try := func(p string) {
			if x.Failed() {
				return
			}
			count++
			k.up.Log = k.up.Log[:0]
			k.all = k.all[:0]
			// as a URL in origin form, or with a host as sent to proxies
			u := &url.URL{Path: p}
			if count%3 == 0 {
				u = &url.URL{Scheme: "http", Host: "evil.example", Path: p, RawQuery: "a=b"}
			}
			r := k.sendURL("GET", u, nil)
			if !k.answered(r) {
				return
			}
			clean := strings.TrimPrefix(path.Clean("/"+p), "/")
			t := append(strings.SplitN(clean, "/", 2), "")
			b, ok := k.cfg.Mapping[t[0]]
			if !ok {
				if len(k.up.Log) > 0 {
					x.Failf("unmapped", "%q is fetched for %q", k.up.Log[0].Raw, p)
				}
				return
			}
			if len(k.up.Log) != 1 {
				x.Failf("fetches", "%d upstream requests for %q", len(k.up.Log), p)
				return
			}
			c11check(x, b, t[1], k.up.Log[0])
		}
		var rec func(p string, left int)
		rec = func(p string, left int) {
			try(p)
			try(p + "/")
			try("/" + p)
			try("//" + p)
			if left == 0 {
				return
			}
			for _, t := range c11tokens {
				rec(p+"/"+t, left-1)
			}
		}
		// always below a mapped prefix, and the same without
		rec("u/"+c11tokens[first], depth-1)
		rec(c11tokens[first]+"/u", depth-2)
		rec(c11tokens[first]+"u", depth-2)
		x.Outcome("%d paths", count)
	})
}

func c11served(x *explore.X) {
	names := []string{"a", "a b", "a%20b", "a+b", "x?y", "x%3Fy", "x", "#z", "%23z", "d/a", "d%2Fa", "a:b", "é", "%C3%A9", "%2e%2e/a", "..a", "a;p", "\\", "A", "Release", "d/Release", "Release.gz/x"}
	n := len(names)
	i := x.Free(n, "first")
	base := c11bases[x.Free(len(c11bases), "base URL")]
	b, err := url.Parse(base)
	if err != nil {
		panic(err)
	}
	k := newCkit(x)
	k.cfg.Mapping = map[string]string{"u": base}
	x.World(func() {
		x.Freeze(true)
		content := func(p string) string { return "content of <" + p + ">" }
		k.up.Serve = func(r *vhttp.Request) vhttp.Reply {
			u, err := url.Parse(r.Raw)
			if err != nil {
				return vhttp.Reply{Status: 400}
			}
			return vhttp.Reply{Status: 200, Body: []byte(content(u.Path))}
		}
		want := func(p string) string { return content(strings.TrimSuffix(b.Path, "/") + "/" + p) }
		empty := k.fs.Clone()
		for j := range names {
			if x.Failed() {
				return
			}
			k.use(empty.Clone())
			k.cfg.CacheCapacity = 100
			if !k.mustStart() {
				return
			}
			for round := 0; round < 2; round++ {
				for _, p := range []string{names[i], names[j], names[i]} {
					w := want(p)
					contract(x, k.get("u/"+p), &w)
				}
				if x.Failed() {
					return
				}
				k.stop()
				if !k.mustStart() {
					return
				}
			}
			k.stop()
		}
		x.Outcome("ok")
	})
}

func c11prefixes(x *explore.X) {
	alpha := []string{"", "a", "z", "0", "9", ".", "_", "-", "A", "/", "%", " ", "é", "\n", ":", "~"}
	n := len(alpha)
	c := x.Free(n*n*n, "prefix")
	p := alpha[c%n] + alpha[c/n%n] + alpha[c/n/n]
	valid := p != "" && p != "." && p != ".."
	for _, ch := range p {
		if !strings.ContainsRune("abcdefghijklmnopqrstuvwxyz0123456789._-", ch) {
			valid = false
		}
	}
	um := make(cacher.URLMap)
	u, _ := url.Parse("http://h.example/base")
	err := um.Register(p, u)
	x.Step()
	if (err == nil) != valid {
		x.Failf("prefix", "registering prefix %q: %v", p, err)
		return
	}
	if err != nil && len(um) != 0 {
		x.Failf("prefix", "refused prefix %q is registered", p)
	}
	if err == nil {
		u2, _ := url.Parse("http://h2.example")
		if err := um.Register(p+"0", u2); err != nil {
			x.Failf("prefix", "registering prefix %q: %v", p+"0", err)
		}
		for q, want := range map[string]string{
			p + "/x": "http://h.example/base/x", "/" + p + "/x/y": "http://h.example/base/x/y", p + "0/x": "http://h2.example/x",
			p + "00/x": "", "A/x": "", strings.ToUpper(p) + "A/x": "", "x" + p + "/x": "", "": "", "/": "", strings.ToUpper(p) + "!/x": "",
			strings.ToUpper(p) + "/X": map[bool]string{true: "http://h.example/base/X"}[strings.ToUpper(p) == p],
		} {
			got := ""
			if r := um.URL(q); r != nil {
				got = r.String()
			}
			if got != want {
				x.Failf("map", "with prefixes %q and %q %q is mapped to %q instead of %q", p, p+"0", q, got, want)
			}
		}
	}
	// the configuration as a whole
	k := newCkit(x)
	k.cfg.Mapping = map[string]string{p: "http://up-u/base/u"}
	x.World(func() {
		err := k.start()
		if (err == nil) != valid {
			x.Failf("config", "starting with prefix %q: %v", p, err)
		}
		x.Outcome("%v", err == nil)
	})
}

func c11refresh(x *explore.X) {
	base := c11bases[x.Free(len(c11bases), "base URL")]
	names := []string{"Release", "InRelease", "d/Release", "a b/Release", "x?y/Release", "%2e%2e/InRelease", "é/Release", "a:b/Release", "#/InRelease"}
	name := names[x.Free(len(names), "file")]
	restart := x.Flag("restart")
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.Mapping = map[string]string{"u": base, "v": "http://other.example/v"}
	x.World(func() {
		k.up.Serve = func(r *vhttp.Request) vhttp.Reply { return vhttp.Reply{Status: 200, Body: []byte("Suite: x\n")} }
		if !k.mustStart() {
			return
		}
		k.get("u/" + name)
		if restart {
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		n := len(k.up.Log)
		vsched.Sleep(25 * time.Second)
		if len(k.up.Log) == n {
			x.Failf("no-refresh", "%s is not refreshed", name)
		}
		for _, r := range k.up.Log {
			rest := name
			if strings.HasSuffix(r.Path, ".gpg") {
				rest += ".gpg"
			}
			c11check(x, base, rest, r)
		}
		x.Outcome("%d", len(k.up.Log))
	})
}
