package props

import (
	"fmt"
	"path"
	"strings"

	"github.com/cybozu-go/aptutil/apt"
	"vmc/explore"
	"vmc/vsched"
)

var aptAssume = []string{"the index reader is sequential: every document and reader behaviour within the bounds is run on the real code; the map iteration order of its result is not observable (lists are compared as sets)",
	"field names are spelled as Debian archives spell them; a Release file's entries for itself are left out by design (documented workaround)"}

func init() {
	register("A01", "model_checking", aptAssume,
		&explore.Scenario{
			Name: "release", Doc: "Release, InRelease and Index documents: every subset and order of checksum sections, every membership of two files in them, spellings of names, directories; and layout variations (comments, blank lines, folded fields, white space, line ends, armour, missing final newline) at every line",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 4, Run: a01release,
		},
		&explore.Scenario{
			Name: "packages", Doc: "Packages documents: up to three stanzas, every order of the fields and every subset of checksums of a stanza, layout variations at every line",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 4, Run: a01packages,
		},
		&explore.Scenario{
			Name: "sources", Doc: "Sources documents: up to two stanzas of up to two files, every subset and order of checksum fields, layout variations at every line",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 4, Run: a01sources,
		},
		&explore.Scenario{
			Name: "compressed", Doc: "documents of every kind in every supported form", Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: a01compressed,
		},
		&explore.Scenario{
			Name: "sizes", Doc: "documents with 0..300, 5000 and 100000 entries, the larger ones also compressed, and lines of every length around the buffer sizes", Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: a01sizes,
		},
	)
}

// layout applies fault choices to the lines of a document.  stanzas are
// separated by a line "\n"-only ("").
type layout struct {
	x       *explore.X
	lines   []string
	kinds   map[int]string // line number -> "sep", "item", "field"
	release bool
}

// render makes a text of lines, varying the layout.  A line "" is a stanza
// separator.
func render(x *axt, lines []string) string {
	var b strings.Builder
	eol := "\n"
	crlf := x.vary(2, "line ends") == 1
	if crlf {
		eol = "\r\n"
	}
	before := func(sep bool) {
		// variations between lines
		switch x.vary(4, "between lines") {
		case 1:
			b.WriteString("# comment" + eol)
		case 2:
			b.WriteString("#" + eol)
		case 3:
			b.WriteString("# Filename: x" + eol)
		}
	}
	switch x.vary(3, "start") {
	case 1:
		b.WriteString(eol)
	case 2:
		b.WriteString(eol + eol + "# c" + eol + eol)
	}
	for i, l := range lines {
		if l == "" {
			switch x.vary(5, "separator") {
			case 1:
				b.WriteString(eol)
			case 2:
				b.WriteString(eol + eol)
			case 3:
				b.WriteString(eol + "# comment" + eol)
			case 4:
				b.WriteString("# comment" + eol)
			}
			b.WriteString(eol)
			continue
		}
		before(false)
		switch {
		case l[0] == ' ':
			switch x.vary(6, "white space of an item") {
			case 1:
				l = "\t" + l[1:]
			case 2:
				l = "   " + l[1:]
			case 3:
				l = strings.ReplaceAll(l, " ", "  ")
			case 4:
				l = " " + strings.ReplaceAll(l[1:], " ", "\t")
			case 5:
				l += " \t"
			}
		default:
			if j := strings.Index(l, ":"); j >= 0 {
				switch x.vary(4, "white space of a field") {
				case 1:
					l = l[:j+1] + strings.TrimLeft(l[j+1:], " ")
				case 2:
					l = l[:j+1] + " \t " + strings.TrimLeft(l[j+1:], " ")
				case 3:
					l += " \t"
				}
			}
		}
		b.WriteString(l)
		if i == len(lines)-1 && x.vary(2, "no final line end") == 1 {
			return b.String()
		}
		b.WriteString(eol)
	}
	switch x.vary(4, "end") {
	case 1:
		b.WriteString(eol)
	case 2:
		b.WriteString(eol + eol + eol)
	case 3:
		b.WriteString("# comment" + eol)
	}
	return b.String()
}

func (x *axt) judge(p, text string, want []aent) {
	fil, _, err := apt.ExtractFileInfo(p, strings.NewReader(text))
	x.Step()
	if err != nil {
		x.Failf("refused", "%s: a well-formed document is refused: %v\n%s", p, err, clipN(text, 600))
		return
	}
	if d := sameEnts(fil, want); d != "" {
		x.Failf("wrong-list", "%s: %s\n%s", p, d, clipN(text, 600))
	}
}

// axt varies either the structure of a document (every combination) or the
// layout of a few structures; the thorough tier also does both at once, one
// layout variation at a time being combined with every structure.
type axt struct {
	*explore.X
	structure, layout bool
	used              bool
}

func newAxt(ax *explore.X) *axt {
	n := 2
	if ax.Deep {
		n = 3
	}
	x := &axt{X: ax}
	switch ax.Free(n, "what varies") {
	case 0:
		x.structure = true
	case 1:
		x.layout = true
	case 2:
		x.structure, x.layout = true, true
	}
	return x
}

// pick chooses one of n, among the last k of them when the structure is not varied.
func (x *axt) pick(n, k int, label string) int {
	if x.structure || n <= k {
		return x.Free(n, label)
	}
	return n - k + x.Free(k, label)
}

// vary is a layout choice.  The thorough tier allows a second variation
// only where the structure is fixed.
func (x *axt) vary(n int, label string) int {
	if !x.layout {
		return 0
	}
	if x.structure && x.used {
		return 0
	}
	v := x.Fault(n, label)
	x.used = x.used || v > 0
	return v
}

// permutations of a list.
func perms(l []string) [][]string {
	if len(l) == 0 {
		return [][]string{nil}
	}
	var r [][]string
	for i := range l {
		rest := append(append([]string(nil), l[:i]...), l[i+1:]...)
		for _, p := range perms(rest) {
			r = append(r, append([]string{l[i]}, p...))
		}
	}
	return r
}

// arrangements lists every order of every subset.
func arrangements(l []string) [][]string {
	var r [][]string
	for m := 0; m < 1<<len(l); m++ {
		var s []string
		for i := range l {
			if m&(1<<i) != 0 {
				s = append(s, l[i])
			}
		}
		r = append(r, perms(s)...)
	}
	return r
}

var sumOrders = arrangements(allSums)

// spellings of names in Release files.
var relSpell = []string{"main/binary-amd64/Packages", "./main/x.gz", "a//b/../c", "../up", "sub/Release", "Contents-amd64", "a:b", "z+z~1"}

func a01release(ax *explore.X) {
	x := newAxt(ax)
	dir := []string{"dists/s", ".", "dists/a/b"}[x.pick(3, 1, "directory")]
	kind := []string{"Release", "InRelease", "Index"}[x.Free(3, "kind")]
	order := sumOrders[x.pick(len(sumOrders), 1, "sections")]
	n := x.pick(3, 2, "files")
	armour := 0
	if kind == "InRelease" {
		armour = x.pick(4, 2, "armour")
	}
	type f struct {
		name string
		in   int
		size uint64
	}
	var fs []f
	if len(order) > 0 {
		for i := 0; i < n; i++ {
			var nm string
			if i == 0 {
				nm = relSpell[x.pick(len(relSpell), 1, "name")]
			} else {
				nm = "main/second"
			}
			fs = append(fs, f{nm, 1 + x.pick(1<<len(order)-1, 2, "listed in"), []uint64{0, 1 << 40}[i]})
		}
	}
	lines := []string{"Origin: x", "Label:", "Description: a", " MD5Sum: no", "Architectures: amd64 all"}
	var want []aent
	for _, e := range fs {
		w := aent{path.Join(dir, path.Clean(e.name)), e.size, map[string]string{}}
		for i, k := range order {
			if e.in&(1<<i) != 0 {
				w.sums[k] = asum(k, e.name)
			}
		}
		want = append(want, w)
	}
	for i, k := range order {
		lines = append(lines, k+":")
		for _, e := range fs {
			if e.in&(1<<i) != 0 {
				lines = append(lines, fmt.Sprintf(" %s %d %s", asum(k, e.name), e.size, e.name))
			}
		}
		if i == 0 {
			lines = append(lines, "Acquire-By-Hash: yes")
		}
	}
	if x.vary(2, "field after the sections") == 1 {
		lines = append(lines, "Valid-Until: Sat, 01 Jan 2028 00:00:00 UTC")
	}
	if armour > 0 {
		// armour is matched literally, so no layout variations in it
		body := render(x, lines)
		head := "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\n"
		if armour == 2 {
			head = "-----BEGIN PGP SIGNED MESSAGE-----\n\n"
		}
		if armour == 3 {
			head = "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\nHash: SHA512\n\n"
		}
		if !strings.HasSuffix(body, "\n") {
			body += "\n"
		}
		x.judge(path.Join(dir, kind), head+body+"-----BEGIN PGP SIGNATURE-----\nVersion: x\n\nSHA256:\n abc\nxx==\n-----END PGP SIGNATURE-----\n", want)
	} else {
		x.judge(path.Join(dir, kind), render(x, lines), want)
	}
	x.Outcome("%s %v %d", kind, order, len(want))
}

var pkgFields = []string{"Filename", "Size", "MD5Sum", "SHA1", "SHA256"}

func a01packages(ax *explore.X) {
	x := newAxt(ax)
	n := x.pick(4, 2, "stanzas")
	varied := 0
	if n > 0 {
		varied = x.pick(n, 1, "varied stanza")
	}
	var lines []string
	var want []aent
	names := []string{"pool/a.deb", "./pool/b.deb", "/pool//c.deb"}
	ps := perms(pkgFields)
	for i := 0; i < n; i++ {
		order := pkgFields
		drop := 0
		if i == varied {
			order = ps[x.pick(len(ps), 3, "order of fields")]
			drop = x.pick(8, 2, "checksums left out")
		}
		e := aent{path.Clean(names[i]), []uint64{0, 18446744073709551615, 99}[i], map[string]string{}}
		if i > 0 {
			lines = append(lines, "")
		}
		if i != 1 {
			lines = append(lines, fmt.Sprintf("Package: p%d", i), "Depends: a (>= 1:0),", " b", "Description: x", " Filename: nope", " .", " more")
		}
		for _, f := range order {
			switch f {
			case "Filename":
				lines = append(lines, "Filename: "+names[i])
			case "Size":
				lines = append(lines, fmt.Sprintf("Size: %d", e.size))
			default:
				for j, k := range allSums {
					if k == f && drop&(1<<j) == 0 {
						e.sums[k] = asum(k, names[i])
						lines = append(lines, pkgField(k)+": "+e.sums[k])
					}
				}
			}
		}
		if i == 1 {
			lines = append(lines, "Package: p1", "Tag: a::b,", " c::d")
		}
		want = append(want, e)
	}
	x.judge("dists/s/main/binary-amd64/Packages", render(x, lines), want)
	x.Outcome("%d", n)
}

func a01sources(ax *explore.X) {
	x := newAxt(ax)
	n := x.pick(3, 2, "stanzas")
	var lines []string
	var want []aent
	dirs := []string{"pool/a", "./pool//b/"}
	for i := 0; i < n; i++ {
		order := sumOrders[len(sumOrders)-1]
		nf, where := 2, 0
		in := []int{7, 7}
		if i == 0 {
			order = sumOrders[x.pick(len(sumOrders), 2, "checksum fields")]
			nf = x.pick(3, 2, "files")
			where = x.pick(3, 3, "place of Directory")
			for j := 0; j < nf && len(order) > 0; j++ {
				in[j] = 1 + x.pick(1<<len(order)-1, 2, "listed in")
			}
		}
		if len(order) == 0 {
			nf = 0
		}
		if i > 0 {
			lines = append(lines, "")
		}
		lines = append(lines, "Package: s", "Package-List:", " s deb x")
		if where == 0 {
			lines = append(lines, "Directory: "+dirs[i])
		}
		names := []string{"a.dsc", "sub/../b.tar"}
		es := make([]aent, nf)
		for j := range es {
			es[j] = aent{path.Join(dirs[i], names[j]), uint64(j * 77), map[string]string{}}
		}
		for c, k := range order {
			lines = append(lines, srcField(k)+":")
			for j := range es {
				if in[j]&(1<<c) != 0 {
					es[j].sums[k] = asum(k, es[j].path)
					lines = append(lines, fmt.Sprintf(" %s %d %s", es[j].sums[k], es[j].size, names[j]))
				}
			}
			if where == 1 && c == 0 {
				lines = append(lines, "Directory: "+dirs[i])
			}
		}
		if where == 2 || where == 1 && len(order) == 0 {
			lines = append(lines, "Directory: "+dirs[i])
		}
		want = append(want, es...)
	}
	x.judge("dists/s/main/source/Sources", render(x, lines), want)
	x.Outcome("%d %d", n, len(want))
}

func a01compressed(ax *explore.X) {
	x := &axt{X: ax}
	ds := fixedDocs()
	d := ds[x.Free(len(ds), "document")]
	ext := []string{"", ".gz", ".bz2", ".xz"}[x.Free(4, "form")]
	dir := []string{"", "x/", "a.b/c.gz/"}[x.Free(3, "directory")]
	if b := path.Base(d.path); dir != "" && (b == "Packages" || b == "Sources") {
		d.path = dir + b
	}
	if !apt.IsMeta(d.path+ext) || !apt.IsSupported(d.path+ext) {
		x.Failf("not-index", "%s is not taken as a supported index", d.path+ext)
	}
	x.judge(d.path+ext, string(packed(d, ext)), d.want)
	x.Outcome("%s", ext)
}

func a01sizes(ax *explore.X) {
	x := &axt{X: ax}
	switch x.Free(3, "what") {
	case 2:
		n := []int{300, 5000, 20000}[x.Free(3, "entries")]
		ext := []string{"", ".gz", ".xz"}[x.Free(3, "form")]
		var l []aent
		for i := 0; i < n; i++ {
			l = append(l, newEnt(fmt.Sprintf("dir%d/file-%d", i%7, i), uint64(i), allSums...))
		}
		d := relDoc("dists/s/Release", false, l, "", "")
		x.judge(d.path+ext, string(packed(d, ext)), d.want)
		x.Outcome("%s", ext)
	case 0:
		n := []int{0, 1, 2, 17, 18, 19, 20, 21, 50, 299, 300, 5000, 100000}[x.Free(13, "entries")]
		kind := x.Free(3, "kind")
		var l []aent
		for i := 0; i < n; i++ {
			l = append(l, newEnt(fmt.Sprintf("pool/dir%d/file-%d", i%7, i), uint64(i), allSums...))
		}
		switch kind {
		case 0:
			d := relDoc("dists/s/Release", false, l, "", "")
			x.judge(d.path, d.text, d.want)
		case 1:
			var b strings.Builder
			for i, e := range l {
				if i > 0 {
					b.WriteString("\n")
				}
				fmt.Fprintf(&b, "Package: p\nSHA256: %s\nFilename: %s\nSHA1: %s\nSize: %d\nMD5sum: %s\n", e.sums["SHA256"], e.path, e.sums["SHA1"], e.size, e.sums["MD5Sum"])
			}
			x.judge("Packages", b.String(), l)
		case 2:
			var b strings.Builder
			for _, e := range l {
				fmt.Fprintf(&b, "Directory: %s\nFiles:\n %s %d %s\nChecksums-Sha1:\n %s %d %s\nChecksums-Sha256:\n %s %d %s\n\n", path.Dir(e.path), e.sums["MD5Sum"], e.size, path.Base(e.path),
					e.sums["SHA1"], e.size, path.Base(e.path), e.sums["SHA256"], e.size, path.Base(e.path))
			}
			x.judge("Sources", b.String(), l)
		}
		x.Outcome("%d", n)
	case 1:
		// long lines next to listed files
		base := []int{100, 4096, 8192, 65536, 524288}[x.Free(5, "length")]
		d := x.Free(9, "difference") - 4
		e := newEnt("pool/a.deb", 5, "SHA256")
		f := newEnt("pool/b.deb", 6, "SHA256")
		st := func(e aent) string {
			return fmt.Sprintf("Filename: %s\nSize: %d\nSHA256: %s\n", e.path, e.size, e.sums["SHA256"])
		}
		long := "Depends: " + strings.Repeat("x", base+d-9) + "\n"
		where := x.Free(3, "place")
		t := ""
		switch where {
		case 0:
			t = long + st(e) + "\n" + st(f)
		case 1:
			t = st(e) + long + "\n" + st(f)
		case 2:
			t = st(e) + "\n" + st(f) + long
		}
		x.judge("Packages", t, []aent{e, f})
		x.Outcome("long")
	}
}
