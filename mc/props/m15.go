package props

import (
	"fmt"
	"net/url"
	"path"
	"strings"

	"github.com/cybozu-go/aptutil/apt"
	"github.com/cybozu-go/aptutil/mirror"
	"vmc/explore"
	"vmc/vsched"
)

func init() {
	assume := []string{"the configuration code is sequential and pure: every combination within the bounds is evaluated on the real code, no schedules are involved"}
	register("M15", "model_checking", assume,
		&explore.Scenario{
			Name: "indices", Doc: "every path of up to 3 (thorough 4) directories over 20 components, 11 base names and 8 extensions x configurations (subsets of 6 sections, of 4 architectures, sources, flat)",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: m15indices,
		},
		&explore.Scenario{
			Name: "releases", Doc: "Release file names of every suite over a path alphabet, flat or not", Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: m15releases,
		},
		&explore.Scenario{
			Name: "resolve", Doc: "every base URL form x every relative path of up to 3 odd components", Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: m15resolve,
		},
		&explore.Scenario{
			Name: "runs", Doc: "whole runs against a repository that has every combination of section, architecture and index kind, for every configuration: requests and published files are exactly the selected ones", Quick: explore.Bounds{},
			Mask: vsched.CatUser, Weight: 2, Run: m15runs,
		},
	)
}

var (
	m15comps    = []string{"main", "contrib", "free", "non-free", "xmain", "mainx", "debian-installer", "binary-amd64", "binary-i386", "binary-all", "binary-kfreebsd-amd64", "xbinary-amd64", "binary-amd64x", "binary-", "source", "sources", "i18n", "by-hash", "dists", "a.b"}
	m15bases    = []string{"Packages", "Sources", "Release", "Index", "Packagesx", "xPackages", "xSources", "Sourcesx", "Contents-amd64", "Translation-en", "Packages.diff"}
	m15exts     = []string{"", ".gz", ".bz2", ".xz", ".lzma", ".zst", ".gz.tmp", ".asc"}
	m15sections = [][]string{{"main"}, {"free"}, {"main", "contrib"}, {"main/debian-installer"}, {"contrib", "main/debian-installer", "non-free"}, {"main/"}, {"./main"}, {"a.b"}, nil}
	m15archs    = [][]string{{"amd64"}, {"i386", "amd64"}, {"kfreebsd-amd64"}, {""}, nil}
)

// wantIndex is the reference: p is selected by a configuration.
func wantIndex(p string, sections, archs []string, source, flat bool) bool {
	base := path.Base(p)
	ext := path.Ext(base)
	switch ext {
	case "", ".gz", ".bz2", ".xz":
	default:
		return false
	}
	name := strings.TrimSuffix(base, ext)
	if name == "Release" || name == "Index" {
		return true
	}
	if flat {
		return name == "Packages" || name == "Sources" && source
	}
	d := strings.Split(path.Dir(p), "/")
	tail := func(want string) bool {
		w := strings.Split(path.Clean(want), "/")
		if len(w) > len(d) {
			return false
		}
		for i := range w {
			if d[len(d)-len(w)+i] != w[i] {
				return false
			}
		}
		return true
	}
	for _, s := range sections {
		if name == "Packages" {
			for _, a := range archs {
				if tail(s + "/binary-" + a) {
					return true
				}
			}
			if tail(s + "/binary-all") {
				return true
			}
		}
		if name == "Sources" && source && tail(s+"/source") {
			return true
		}
	}
	return false
}

func m15indices(x *explore.X) {
	var sections, archs []string
	flat := x.Flag("flat")
	source := x.Flag("sources")
	suite := "s"
	if flat {
		suite = []string{"./", "/", "sub/"}[x.Free(3, "suite")]
	} else {
		sections = m15sections[x.Free(len(m15sections), "sections")]
		archs = m15archs[x.Free(len(m15archs), "archs")]
	}
	first := x.Free(len(m15comps)+1, "first component")
	mc := &mirror.MirrConfig{Suites: []string{suite}, Sections: sections, Architectures: archs, Source: source}
	depth := 3
	if x.Deep {
		depth = 4
	}
	hits := 0
	var rec func(prefix string, left int)
	rec = func(prefix string, left int) {
		for _, b := range m15bases {
			for _, e := range m15exts {
				p := prefix + b + e
				x.Step()
				got := mc.MatchingIndex(p) && apt.IsSupported(p)
				want := wantIndex(p, sections, archs, source, flat)
				if want {
					hits++
				}
				if got != want {
					x.Failf("selection", "sections %q archs %q source %v suite %q: index %s selected=%v, want %v", sections, archs, source, suite, p, got, want)
				}
			}
		}
		if left == 0 || x.Failed() {
			return
		}
		for _, c := range m15comps {
			rec(prefix+c+"/", left-1)
		}
	}
	if first == 0 {
		rec("", 0)
	} else {
		rec(m15comps[first-1]+"/", depth-1)
	}
	x.Outcome("%d selected", hits)
}

func m15releases(x *explore.X) {
	parts := []string{"", "s", "s-updates", "updates", ".", "s.1", "x/y", "Release"}
	a := parts[x.Free(len(parts), "first")]
	b := parts[x.Free(len(parts), "second")]
	flat := x.Flag("flat")
	s := a
	if b != "" {
		s += "/" + b
	}
	s = strings.TrimPrefix(s, "/")
	if flat {
		s += "/"
	} else if s == "" {
		return
	}
	mc := &mirror.MirrConfig{Suites: []string{s}}
	dir := "dists/" + s
	if flat {
		dir = "./" + s
	}
	want := map[string]bool{}
	for _, f := range []string{"Release", "Release.gpg", "Release.gz", "Release.bz2", "InRelease", "InRelease.gz", "InRelease.bz2"} {
		want[path.Clean(dir+"/"+f)] = true
	}
	got := mc.ReleaseFiles(s)
	for _, f := range got {
		x.Step()
		if !want[f] {
			x.Failf("release-names", "suite %q: unexpected or repeated Release file %q", s, f)
		}
		delete(want, f)
	}
	for f := range want {
		x.Failf("release-names", "suite %q: %q is not looked up", s, f)
	}
	x.Outcome("flat=%v", flat)
}

func m15resolve(x *explore.X) {
	bases := []string{"http://up", "http://up/", "http://up/ubuntu", "http://up/ubuntu/", "https://up:8080/a/b", "https://up:8080/a/b/", "http://u:p@up/x/", "http://up/a%20b/", "http://up/a%2Fb", "http://up/a%2fb%2F/", "http://up/%7Ex/", "http://[::1]:80/m", "http://up/a//b/", "http://UP.example/deb/./x", "http://up/a+b~c", "http://up/x?q=1", "http://up/x#frag"}
	raw := bases[x.Free(len(bases), "base")]
	mc := &mirror.MirrConfig{}
	if err := mc.URL.UnmarshalText([]byte(raw)); err != nil {
		x.Failf("base", "base URL %s is not accepted: %v", raw, err)
		return
	}
	base, err := url.Parse(raw)
	if err != nil {
		panic(err)
	}
	comps := []string{"dists", "s", "main", "a b", "a:b", "a+b~1.2", "%41", "%", "?", "#", "a?b=c", "a#b", "a%2Fb", "é", "\\", "~", "...", "..a", "a;b", "a&b", "@", "u@h", "[", "*", "'", "\"", "<>", "{}", "^", "`", "|", ",", "$", "!", "=", "a..b", ".hidden", "x.deb", "\xff", "-", "_", "con:80", "http:", "a=b"}
	first := comps[x.Free(len(comps), "first")]
	try := func(p string) {
		x.Step()
		u := mc.Resolve(p)
		// what goes over the wire, seen by a server
		wire, err := url.ParseRequestURI(u.RequestURI())
		if err != nil {
			x.Failf("resolve", "base %s: %q resolves to %s, which is no request URI: %v", raw, p, u, err)
			return
		}
		bp := base.Path
		if !strings.HasSuffix(bp, "/") {
			bp += "/"
		}
		want := cleanDots(bp) + p
		if u.Scheme != base.Scheme || u.Host != base.Host || fmt.Sprint(u.User) != fmt.Sprint(base.User) || wire.Path != want || wire.RawQuery != "" || wire.Fragment != "" || u.Fragment != "" {
			x.Failf("resolve", "base %s: %q resolves to %s (path %q), want path %q below the base", raw, p, u, wire.Path, want)
		}
		// an encoded slash of the base is no separator
		if n := func(u *url.URL) int { return strings.Count(strings.ToUpper(u.EscapedPath()), "%2F") }; n(wire) != n(base) {
			x.Failf("resolve", "base %s: %q resolves to %s, which is not below the base", raw, p, u)
		}
	}
	try(first)
	for _, b := range comps {
		try(first + "/" + b)
		for _, c := range comps {
			try(first + "/" + b + "/" + c)
		}
	}
	x.Outcome("%s", raw)
}

// cleanDots removes "." components, which mean the same path in a URL.
func cleanDots(p string) string {
	var l []string
	for _, c := range strings.Split(p, "/") {
		if c != "." {
			l = append(l, c)
		}
	}
	return strings.Join(l, "/")
}

// m15runs mirrors a repository that has everything.
func m15runs(x *explore.X) {
	sections := m15sections[x.Free(4, "sections")]
	archs := m15archs[x.Free(3, "archs")]
	source := x.Flag("sources")
	byhash := x.Flag("byhash")
	sp := &mspec{id: "m", suites: []string{"s"}, sections: sections, archs: archs, source: source}
	k := newMkit(x, 2, sp)
	x.World(func() {
		x.Freeze(true)
		r := &rrepo{suites: []rsuite{{dir: "dists/s", names: []string{"Release"}, byhash: byhash, note: "all"}}}
		for _, sec := range []string{"main", "free", "non-free", "xmain", "main/debian-installer", "contrib/debian-installer", "contrib"} {
			for _, a := range []string{"amd64", "i386", "all", "kfreebsd-amd64"} {
				p := sec + "/binary-" + a
				r.suites[0].indices = append(r.suites[0].indices, rindex{rel: p + "/Packages", exts: []string{[]string{"", ".gz", ".xz"}[len(p)%3]}, items: []ritem{it("pool/"+p+"/x.deb", p)}})
			}
			r.suites[0].indices = append(r.suites[0].indices, rindex{rel: sec + "/source/Sources", items: []ritem{it("pool/"+sec+"/src/x.dsc", sec)}})
		}
		v := newVer(sp, r)
		k.cur = one("m", v)
		if err := k.run(); err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
			return
		}
		if t := k.tree("m"); !sameTree(t, v.want) {
			x.Failf("tree", "sections %q archs %q source %v: %s", sections, archs, source, diffTree(t, v.want))
		}
		for _, q := range k.up.Log {
			_, p := k.split(q.Path)
			if _, ok := v.want[p]; !ok && strings.HasPrefix(p, "pool/") {
				x.Failf("tree", "sections %q archs %q source %v: %s is requested but not selected", sections, archs, source, p)
			}
		}
		x.Outcome("%d files", len(v.want))
	})
}
