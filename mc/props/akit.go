package props

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/cybozu-go/aptutil/apt"
)

// aent is a file listed by an index document.
type aent struct {
	path string
	size uint64
	sums map[string]string // MD5Sum, SHA1, SHA256 -> hex
}

func (e aent) String() string {
	return fmt.Sprintf("%s %d %s/%s/%s", e.path, e.size, e.sums["MD5Sum"], e.sums["SHA1"], e.sums["SHA256"])
}

// entOf reads a FileInfo through its public methods.
func entOf(fi *apt.FileInfo) aent {
	b, err := json.Marshal(fi)
	if err != nil {
		panic(err)
	}
	var j struct {
		Path                       string
		Size                       int64
		MD5Sum, SHA1Sum, SHA256Sum string
	}
	if err := json.Unmarshal(b, &j); err != nil {
		panic(err)
	}
	e := aent{fi.Path(), fi.Size(), map[string]string{}}
	if j.Path != e.path || uint64(j.Size) != e.size {
		panic(fmt.Sprintf("JSON %s of %s", b, e))
	}
	for k, v := range map[string]string{"MD5Sum": j.MD5Sum, "SHA1": j.SHA1Sum, "SHA256": j.SHA256Sum} {
		if v != "" {
			e.sums[k] = v
		}
	}
	return e
}

func entStrings(l []aent) []string {
	var r []string
	for _, e := range l {
		r = append(r, e.String())
	}
	sort.Strings(r)
	return r
}

// sameEnts compares an extraction with the expected list.
func sameEnts(fil []*apt.FileInfo, want []aent) string {
	var got []aent
	for _, fi := range fil {
		got = append(got, entOf(fi))
	}
	g, w := entStrings(got), entStrings(want)
	if strings.Join(g, "\n") == strings.Join(w, "\n") {
		return ""
	}
	return fmt.Sprintf("got %d entries [%s], want %d [%s]", len(g), clipN(strings.Join(g, "; "), 400), len(w), clipN(strings.Join(w, "; "), 400))
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// asum makes a checksum that tells where it belongs.
func asum(kind, name string) string { return hexsum(kind, []byte(kind+" "+name)) }

func newEnt(p string, size uint64, kinds ...string) aent {
	e := aent{p, size, map[string]string{}}
	for _, k := range kinds {
		e.sums[k] = asum(k, p)
	}
	return e
}

// fixedDocs are documents of every kind with the files they list, for the
// scenarios that vary how they are read.
type fixedDoc struct {
	path string
	text string
	want []aent
}

func relDoc(p string, byhash bool, ents []aent, head, tail string) fixedDoc {
	var b strings.Builder
	b.WriteString(head)
	b.WriteString("Origin: x\nDescription: d\n more: text\n")
	if byhash {
		b.WriteString("Acquire-By-Hash: yes\n")
	}
	d := fixedDoc{path: p}
	for _, k := range allSums {
		b.WriteString(k + ":\n")
		for _, e := range ents {
			if s := e.sums[k]; s != "" {
				fmt.Fprintf(&b, " %s %d %s\n", s, e.size, e.path)
			}
		}
	}
	b.WriteString(tail)
	for _, e := range ents {
		d.want = append(d.want, aent{path.Join(path.Dir(p), e.path), e.size, e.sums})
	}
	d.text = b.String()
	return d
}

func fixedDocs() []fixedDoc {
	ents := []aent{newEnt("main/binary-amd64/Packages", 7, allSums...), newEnt("main/source/Sources.xz", 0, "SHA256"), newEnt("x", 12345678901, "MD5Sum", "SHA1")}
	l := []fixedDoc{
		relDoc("dists/s/Release", true, ents, "", ""),
		relDoc("Release", false, ents[:1], "", "\n"),
		relDoc("dists/s/InRelease", true, ents[:2], "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA512\n\n", "-----BEGIN PGP SIGNATURE-----\n\niQIz+base64\n=abcd\n-----END PGP SIGNATURE-----\n"),
		relDoc("dists/s/main/i18n/Index", false, ents[2:], "", ""),
	}
	pk := fixedDoc{path: "dists/s/main/binary-amd64/Packages"}
	sr := fixedDoc{path: "dists/s/main/source/Sources"}
	for i, kinds := range [][]string{allSums, {"SHA256"}, {"MD5Sum", "SHA256"}} {
		e := newEnt(fmt.Sprintf("pool/p%d.deb", i), uint64(i*1000), kinds...)
		pk.want = append(pk.want, e)
		pk.text += fmt.Sprintf("Package: p%d\nFilename: %s\nDescription: text\n more\n .\n Size: 5\nSize: %d\n", i, e.path, e.size)
		for _, k := range kinds {
			pk.text += pkgField(k) + ": " + e.sums[k] + "\n"
		}
		pk.text += "\n"
		d := fmt.Sprintf("pool/s%d", i)
		a, b := newEnt(d+"/a.dsc", 3, kinds...), newEnt(d+"/b.tar.xz", 4, kinds...)
		sr.want = append(sr.want, a, b)
		sr.text += "Package: s\nDirectory: " + d + "\nPackage-List:\n x deb y\n"
		for _, k := range kinds {
			sr.text += srcField(k) + ":\n"
			for _, e := range []aent{a, b} {
				sr.text += fmt.Sprintf(" %s %d %s\n", e.sums[k], e.size, path.Base(e.path))
			}
		}
		sr.text += "\n"
	}
	pk2 := pk
	pk2.text = strings.TrimRight(pk.text, "\n")
	return append(l, pk, pk2, sr)
}

func pkgField(k string) string {
	if k == "MD5Sum" {
		return "MD5sum"
	}
	return k
}

func srcField(k string) string {
	return map[string]string{"MD5Sum": "Files", "SHA1": "Checksums-Sha1", "SHA256": "Checksums-Sha256"}[k]
}

// packed returns a fixed document compressed as ext.
func packed(d fixedDoc, ext string) []byte {
	if ext == ".bz2" {
		b, ok := bz2Table[hexsum("SHA256", []byte(d.text))]
		if !ok {
			panic("no bz2 form of " + d.path + "; run tools/mkbz2.py")
		}
		return b
	}
	return compress(ext, []byte(d.text))
}

// BZ2Docs lists the texts that need a bz2 form (tools/mkbz2.py).
func BZ2Docs() []string {
	var l []string
	for _, d := range fixedDocs() {
		l = append(l, d.text)
	}
	return l
}
