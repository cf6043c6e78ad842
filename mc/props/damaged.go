package props

import (
	"fmt"
	"strings"

	"vmc/explore"
	"vmc/vsched"
)

// Indices that are damaged although their checksums are right.

type textDamage struct{ what, old, new string }

var pkgDamages = []textDamage{
	{"a line without colon", "Package: ", "Package "}, {"a bad size", "Size: ", "Size: x"}, {"a negative size", "Size: ", "Size: -"}, {"no size", "Size: ", "Sise: "},
	{"no file name", "Filename: ", "Name: "}, {"a bad checksum", "MD5sum: ", "MD5sum: zz"}, {"an odd checksum", "SHA1: ", "SHA1: a"}, {"a bad SHA256", "SHA256: ", "SHA256: -"},
	{"a stray continuation", "Package: ", " x\nPackage: "},
}

var srcDamages = []textDamage{
	{"no directory", "Directory: ", "Dir: "}, {"two columns", "Files:\n ", "Files:\n x 1\n "}, {"a bad checksum", "Checksums-Sha1:\n ", "Checksums-Sha1:\n zz"},
	{"an odd checksum", "Checksums-Sha256:\n ", "Checksums-Sha256:\n a"},
}

// damageAt replaces the first or last occurrence.
func damageAt(s string, d textDamage, last bool) string {
	i := strings.Index(s, d.old)
	if last {
		i = strings.LastIndex(s, d.old)
	}
	return s[:i] + d.new + s[i+len(d.old):]
}

// damagedIndex mirrors a repository one of whose indices is damaged: it must
// not be taken for one that lists less.
func damagedIndex(x *explore.X) {
	repo := func(ver string) *rrepo {
		return &rrepo{suites: []rsuite{{dir: "dists/s", names: []string{"Release"}, note: "version " + ver, indices: []rindex{
			{rel: "main/binary-amd64/Packages", items: []ritem{it("pool/a.deb", "a "+ver), it("pool/b.deb", "b "+ver), it("pool/c.deb", "same")}},
			{rel: "main/source/Sources", items: []ritem{it("pool/s/s.dsc", "dsc "+ver), it("pool/s/s.tar", "tar "+ver), it("pool/t/t.dsc", "dsc t")}},
		}}}}
	}
	sp := &mspec{id: "m", suites: []string{"s"}, sections: []string{"main"}, archs: []string{"amd64"}, source: true}
	good1, good := newVer(sp, repo("1")), newVer(sp, repo("2"))
	r := repo("2")
	which := x.Free(2, "index")
	ix := &r.suites[0].indices[which]
	text := string(ix.content())
	r.suites[0].byhash = x.Flag("by-hash")
	forms := [][]string{{""}, {".gz"}, {".xz"}, {"", ".gz"}, {".gz", ".xz"}}[x.Free(5, "forms")]
	ix.exts = forms
	what := ""
	if c := x.Free(2, "kind of damage"); c == 0 {
		l := pkgDamages
		if which == 1 {
			l = srcDamages
		}
		d := l[x.Free(len(l), "damage")]
		what = d.what
		t := damageAt(text, d, x.Flag("last"))
		if t == text {
			return
		}
		ix.raw = []byte(t)
	} else {
		if forms[0] == "" {
			return
		}
		cut := x.Free(4, "broken compressed data")
		what = "broken compressed data"
		rel := ix.rel
		r.suites[0].indices = append(r.suites[0].indices[:which:which], r.suites[0].indices[which+1:]...)
		for _, e := range forms {
			z := compress(e, []byte(text))
			switch cut {
			case 0:
				z = z[:len(z)-5]
			case 1:
				z = z[:len(z)/2]
			case 2:
				z = z[:8]
			case 3:
				z = append([]byte(nil), z...)
				z[len(z)/2] ^= 0x55
			}
			r.suites[0].indices = append(r.suites[0].indices, rindex{rel: rel + e, raw: z})
		}
	}
	prev := x.Flag("published before")
	bad := newVer(sp, r)
	files := bad.files
	for p, b := range good.files {
		if strings.HasPrefix(p, "pool/") {
			files[p] = b
		}
	}
	k := newMkit(x, 2, sp)
	x.RunWorld(&vsched.World{Mask: x.Sc.Mask, MapDesc: x.Flag("map order")}, func() {
		if prev {
			prep(k, one("m", good1))
		}
		old := k.tree("m")
		k.cur = one("m", &mver{repo: r, files: files})
		err := k.run()
		t := k.tree("m")
		where := fmt.Sprintf("%s of forms %q with %s", []string{"Packages", "Sources"}[which], forms, what)
		if err != nil {
			if !sameTree(t, old) {
				x.Failf("changed", "%s: the run failed (%v) but the published mirror changed: %s", where, err, diffTree(t, old))
			}
			x.Outcome("refused")
			return
		}
		for p, b := range good.want {
			if strings.HasPrefix(p, "pool/") && t[p] != b {
				x.Failf("shortened", "%s: the run reports success, but %s is not mirrored", where, p)
				return
			}
		}
		x.Outcome("complete %s", where)
	})
}
