package props

// The zoo: small repositories of every kind the program supports, each with a
// configuration that selects part of it.

type zooEntry struct {
	name string
	sp   *mspec
	repo func(ver string) *rrepo
}

func it(p, b string) ritem { return ritem{path: p, body: b} }

func std(sections, archs []string, source bool) *mspec {
	return &mspec{id: "m", suites: []string{"s"}, sections: sections, archs: archs, source: source}
}

// zoo lists them. Versions "1", "2" and "3" of one entry differ in some items.
var zoo = []zooEntry{
	{"plain", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo { return small(v, false) }},
	{"by-hash", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo { return small(v, true) }},
	{"sources", std([]string{"main"}, []string{"amd64"}, true), func(v string) *rrepo { return stdRepo(v, false) }},
	{"no-sources", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo { return stdRepo(v, true) }},
	{"two-archs", std([]string{"main", "extra"}, []string{"amd64", "i386"}, true), func(v string) *rrepo { return stdRepo(v, true) }},
	{"two-suites", &mspec{id: "m", suites: []string{"s", "s-updates"}, sections: []string{"main"}, archs: []string{"amd64"}}, func(v string) *rrepo {
		a, b := small(v, false), small(v+"u", true)
		b.suites[0].dir = "dists/s-updates"
		// both suites list one common file
		b.suites[0].indices[0].items = append(b.suites[0].indices[0].items, deb("m", "keep", "0"))
		b.suites[0].names = []string{"InRelease"}
		return &rrepo{suites: append(a.suites, b.suites...)}
	}},
	{"subsuite", &mspec{id: "m", suites: []string{"s/updates"}, sections: []string{"main"}, archs: []string{"amd64"}}, func(v string) *rrepo {
		r := small(v, false)
		r.suites[0].dir = "dists/s/updates"
		return r
	}},
	{"flat", &mspec{id: "m", suites: []string{"./"}}, func(v string) *rrepo {
		return &rrepo{suites: []rsuite{{dir: ".", names: []string{"Release", "Release.gpg"}, note: v, indices: []rindex{
			{rel: "Packages", exts: []string{"", ".gz"}, items: []ritem{it("a_"+v+".deb", "a"+v), it("./sub/b.deb", "b")}},
			{rel: "Sources", items: []ritem{it("a.dsc", "dsc")}},
		}}}}
	}},
	{"flat-root", &mspec{id: "m", suites: []string{"/"}, source: true}, func(v string) *rrepo {
		return &rrepo{suites: []rsuite{{dir: ".", names: []string{"InRelease"}, note: v, indices: []rindex{
			{rel: "Packages", exts: []string{".gz"}, items: []ritem{it("x/a_"+v+".deb", "a"+v)}},
			{rel: "Sources", items: []ritem{it("x/a.dsc", "dsc"+v)}},
		}}}}
	}},
	{"flat-sub", &mspec{id: "m", suites: []string{"ubuntu/precise/"}}, func(v string) *rrepo {
		return &rrepo{suites: []rsuite{{dir: "ubuntu/precise", names: []string{"Release"}, byhash: true, note: v, indices: []rindex{
			{rel: "Packages", exts: []string{".xz", ".gz"}, items: []ritem{it("ubuntu/precise/a_"+v+".deb", "a"+v)}},
		}}}}
	}},
	{"xz-inrelease", std([]string{"main"}, []string{"amd64"}, true), func(v string) *rrepo {
		r := stdRepo(v, true, "InRelease")
		r.suites[0].indices[0].exts = []string{".xz"}
		r.suites[0].indices[4].exts = []string{".xz", ".gz"}
		return r
	}},
	{"release-gz", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo {
		return stdRepo(v, false, "Release", "Release.gz", "InRelease", "Release.gpg")
	}},
	{"i18n-index", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo {
		r := small(v, false)
		r.suites[0].indices = append(r.suites[0].indices, rindex{rel: "main/i18n/Index", dir: "dists/s/main/i18n", items: []ritem{
			it("dists/s/main/i18n/Translation-de.bz2", "de"+v), it("dists/s/main/i18n/Translation-en", "contents of main/i18n/Translation-en\n"),
		}})
		return r
	}},
	{"component-release", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo {
		r := small(v, true)
		r.suites[0].indices = append(r.suites[0].indices, rindex{rel: "main/binary-amd64/Release"}, rindex{rel: "Contents-amd64", exts: []string{"", ".gz"}})
		return r
	}},
	{"installer", std([]string{"main", "main/debian-installer"}, []string{"amd64"}, false), func(v string) *rrepo {
		r := small(v, false)
		r.suites[0].indices = append(r.suites[0].indices, rindex{rel: "main/debian-installer/binary-amd64/Packages", items: []ritem{it("pool/m/u_"+v+".udeb", "udeb"+v)}},
			rindex{rel: "contrib/debian-installer/binary-amd64/Packages", items: []ritem{it("pool/c/u_"+v+".udeb", "contrib udeb"+v)}})
		return r
	}},
	{"sections-by-name", std([]string{"free"}, []string{"amd64"}, true), func(v string) *rrepo {
		r := &rrepo{suites: []rsuite{{dir: "dists/s", names: []string{"Release"}, note: v}}}
		for _, c := range []string{"free", "non-free", "nonfree"} {
			r.suites[0].indices = append(r.suites[0].indices,
				rindex{rel: c + "/binary-amd64/Packages", items: []ritem{it("pool/"+c+"/a_"+v+".deb", c+v)}},
				rindex{rel: c + "/source/Sources", items: []ritem{it("pool/"+c+"/a_"+v+".dsc", "dsc "+c+v)}},
				rindex{rel: c + "/binary-kfreebsd-amd64/Packages", items: []ritem{it("pool/"+c+"/k_"+v+".deb", "k"+c+v)}})
		}
		return r
	}},
	{"same-content", std([]string{"main"}, []string{"amd64", "i386"}, false), func(v string) *rrepo {
		// identical indices in one directory and in several, items with equal content
		r := &rrepo{suites: []rsuite{{dir: "dists/s", names: []string{"Release"}, byhash: true, note: v}}}
		its := []ritem{it("pool/a_"+v+".deb", "same"), it("pool/b.deb", "same")}
		r.suites[0].indices = []rindex{
			{rel: "main/binary-amd64/Packages", items: its},
			{rel: "main/binary-i386/Packages", items: its},
			{rel: "main/binary-all/Packages", raw: []byte{}},
			{rel: "main/i18n/Translation-en", raw: []byte("t")},
			{rel: "main/i18n/Translation-de", raw: []byte("t")},
		}
		return r
	}},
	{"sha256-only", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo {
		r := small(v, true)
		r.suites[0].sums = []string{"SHA256"}
		r.suites[0].indices[0].sums = []string{"SHA256"}
		return r
	}},
	{"md5-only", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo {
		r := small(v, true)
		r.suites[0].sums = []string{"MD5Sum"}
		r.suites[0].indices[0].sums = []string{"MD5sum"}
		return r
	}},
	{"no-items", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo {
		return &rrepo{suites: []rsuite{{dir: "dists/s", names: []string{"Release"}, note: v, indices: []rindex{
			{rel: "main/binary-amd64/Packages", exts: []string{"", ".gz"}, raw: []byte{}}}}}}
	}},
	{"many", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo {
		r := small(v, false)
		for _, n := range []string{"b", "c", "d", "e", "f", "g", "h"} {
			r.suites[0].indices[0].items = append(r.suites[0].indices[0].items, deb("m", n, v), deb("m", n, "0"))
		}
		return r
	}},
	{"odd-names", std([]string{"main"}, []string{"amd64"}, false), func(v string) *rrepo {
		r := small(v, false)
		r.suites[0].indices[0].items = append(r.suites[0].indices[0].items,
			it("pool/m/a+b~1_"+v+".deb", "plus"), it("pool/m/p%41.deb", "percent"), it("pool/m/x:1.deb", "colon"),
			it("pool//m/./d.deb", "unclean"), it("./pool/m/dot.deb", "dot"), it("a:b.deb", "first segment"), it("pool/m/q?x=1#y.deb", "query"))
		return r
	}},
}

var zooMemo = map[string]*mver{}

func zooVer(i int, ver string) *mver {
	k := zoo[i].name + "/" + ver
	if zooMemo[k] == nil {
		zooMemo[k] = newVer(zoo[i].sp, zoo[i].repo(ver))
	}
	return zooMemo[k]
}
