package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/cybozu-go/aptutil/apt"
	"vmc/explore"
	"vmc/vsched"
)

func init() {
	register("A02", "model_checking", aptAssume,
		&explore.Scenario{
			Name: "readers", Doc: "documents of every kind and form through readers that split the bytes at any one or two places or into single bytes, with empty reads and EOF with or after the data, and that fail at any offset",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: a02readers,
		},
		&explore.Scenario{
			Name: "damaged", Doc: "compressed documents truncated at every byte, with any single bit flipped, or any byte removed, doubled or zeroed: an error, or (where the format does not cover the bit) the right list",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: a02damaged,
		},
		&explore.Scenario{
			Name: "malformed", Doc: "documents of every kind with every listed way of damaging every line",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: a02malformed,
		},
		&explore.Scenario{
			Name: "long-lines", Doc: "a line longer than the reader's buffer at every place: the right list or an error",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: a02long,
		},
	)
}

var errRead = errors.New("broken pipe")

// chunked is a reader with prescribed behaviour.
type chunked struct {
	b       []byte
	cuts    []int // offsets at which a Read ends
	max     int   // most bytes per Read (0: no limit)
	empty   bool  // an empty read before every other one
	withEnd bool  // the last data comes with the error
	end     error
	off     int
	flip    bool
}

func (c *chunked) Read(p []byte) (int, error) {
	if c.empty {
		c.flip = !c.flip
		if c.flip {
			return 0, nil
		}
	}
	if c.off >= len(c.b) {
		return 0, c.end
	}
	n := len(c.b) - c.off
	for _, k := range c.cuts {
		if k > c.off && k-c.off < n {
			n = k - c.off
		}
	}
	if c.max > 0 && n > c.max {
		n = c.max
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.b[c.off:c.off+n])
	c.off += n
	if c.off == len(c.b) && c.withEnd {
		return n, c.end
	}
	return n, nil
}

// a02doc chooses a document; xz readers are expensive (8 MB each), so the
// quick tier reads one small document of two kinds in that form.
func a02doc(x *explore.X, ext string) fixedDoc {
	ds := fixedDocs()
	if ext == ".xz" && !x.Deep {
		ds = []fixedDoc{ds[1], ds[4]}
	}
	return ds[x.Free(len(ds), "document")]
}

func a02readers(x *explore.X) {
	ext := []string{"", ".gz", ".bz2", ".xz"}[x.Free(4, "form")]
	d := a02doc(x, ext)
	b := packed(d, ext)
	what := x.Free(4, "reader")
	// the xz library gives up on empty reads, which files never make
	style := 0
	if ext == ".xz" {
		style = x.Free(2, "style") * 2
	} else {
		style = x.Free(4, "style")
	}
	r := &chunked{b: b, end: io.EOF, empty: style&1 != 0, withEnd: style&2 != 0}
	broken := false
	switch what {
	case 0:
		r.max = 1 + x.Free(5, "bytes per read")
	case 1:
		r.cuts = []int{x.Free(len(b), "cut")}
	case 2:
		// every pair of cuts around line ends, otherwise of a grid
		step := 23
		if ext == ".xz" {
			step = 97
		}
		if x.Deep {
			step = 3
		}
		n := len(b)/step + 1
		r.cuts = []int{x.Free(n, "first cut") * step, 0}
		r.cuts[1] = r.cuts[0] + 1 + x.Free(n, "second cut")*step
	case 3:
		// a read error
		r.b = b[:x.Free(len(b)+1, "fails at")]
		r.end = errRead
		broken = true
		if style == 1 {
			r.end = io.ErrUnexpectedEOF
			r.empty = false
		}
	}
	fil, _, err := apt.ExtractFileInfo(d.path+ext, r)
	x.Step()
	switch {
	case broken && err == nil:
		x.Failf("read-error-lost", "%s: reading failed at byte %d of %d, but extraction succeeded: %s", d.path+ext, len(r.b), len(b), sameEnts(fil, d.want))
	case broken && fil != nil:
		x.Failf("list-with-error", "%s: a list of %d files was returned with error %v", d.path+ext, len(fil), err)
	case !broken && err != nil:
		x.Failf("chunks", "%s: %+v: %v", d.path+ext, r.cuts, err)
	case !broken:
		if m := sameEnts(fil, d.want); m != "" {
			x.Failf("chunks", "%s: cuts %v, at most %d bytes: %s", d.path+ext, r.cuts, r.max, m)
		}
	}
	x.Outcome("%s %v", ext, broken)
}

func a02damaged(x *explore.X) {
	ext := []string{".gz", ".bz2", ".xz"}[x.Free(3, "form")]
	d := a02doc(x, ext)
	b := append([]byte(nil), packed(d, ext)...)
	how := x.Free(5, "damage")
	i := x.Free(len(b), "byte")
	cut := false
	switch how {
	case 0:
		b = b[:i]
		cut = true
	case 1:
		b[i] ^= 1 << x.Free(8, "bit")
	case 2:
		b = append(b[:i], b[i+1:]...)
	case 3:
		b = append(b[:i+1], b[i:]...)
	case 4:
		b[i] = 0
	}
	fil, _, err := apt.ExtractFileInfo(d.path+ext, bytes.NewReader(b))
	x.Step()
	what := fmt.Sprintf("%s: %s byte %d", d.path+ext, []string{"truncated at", "bit flipped in", "without", "doubled", "zeroed"}[how], i)
	switch {
	case err == nil && cut:
		x.Failf("truncated", "%s: extraction succeeded with %d files", what, len(fil))
	case err == nil:
		if m := sameEnts(fil, d.want); m != "" {
			x.Failf("corrupted", "%s: extraction succeeded: %s", what, m)
		}
	case fil != nil:
		x.Failf("list-with-error", "%s: a list of %d files was returned with error %v", what, len(fil), err)
	}
	x.Outcome("%s %d %v", ext, how, err == nil)
}

// damages of a line; "" means not applicable.
var damages = []string{"bad hex", "odd hex", "hex prefix", "negative size", "size with sign", "size overflow", "size not a number", "size empty", "two columns", "one column", "four columns", "five columns", "orphan line", "no colon", "missing Filename", "missing Size", "missing Directory", "empty Filename", "empty Size", "empty Directory", "comma size", "hex size"}

func a02malformed(x *explore.X) {
	ds := fixedDocs()
	d := ds[x.Free(len(ds), "document")]
	lines := strings.Split(strings.TrimRight(d.text, "\n"), "\n")
	start, end := 0, len(lines)
	if strings.HasPrefix(lines[0], "-----BEGIN") {
		start = 3
		for i, l := range lines {
			if l == "-----BEGIN PGP SIGNATURE-----" {
				end = i
			}
		}
	}
	i := start + x.Free(end-start, "line")
	how := damages[x.Free(len(damages), "damage")]
	l := lines[i]
	inSum := false
	for j := i; j >= start; j-- {
		if !strings.HasPrefix(lines[j], " ") {
			f := strings.SplitN(lines[j], ":", 2)[0]
			for _, k := range allSums {
				inSum = inSum || f == k || f == srcField(k)
			}
			break
		}
	}
	item := strings.HasPrefix(l, " ") && inSum && len(strings.Fields(l)) == 3
	f := strings.Fields(l)
	field := ""
	if !strings.HasPrefix(l, " ") && strings.Contains(l, ":") {
		field = l[:strings.Index(l, ":")]
	}
	sumField := field == "MD5sum" || (field == "SHA1" || field == "SHA256") && strings.HasSuffix(d.path, "Packages")
	join := func() { lines[i] = " " + strings.Join(f, " ") }
	applies := true
	switch how {
	case "bad hex", "odd hex", "hex prefix":
		bad := func(h string) string {
			switch how {
			case "bad hex":
				return h[:len(h)/2] + "g" + h[len(h)/2+1:]
			case "odd hex":
				return h[1:]
			}
			return "0x" + h
		}
		switch {
		case item:
			f[0] = bad(f[0])
			join()
		case sumField:
			lines[i] = field + ": " + bad(strings.TrimSpace(l[len(field)+1:]))
		default:
			applies = false
		}
	case "negative size", "size with sign", "size overflow", "size not a number", "comma size", "hex size":
		bad := map[string]string{"negative size": "-1", "size with sign": "+1", "size overflow": "18446744073709551616", "size not a number": "12a", "comma size": "1,000", "hex size": "0x10"}[how]
		switch {
		case item:
			f[1] = bad
			join()
		case field == "Size":
			lines[i] = "Size: " + bad
		default:
			applies = false
		}
	case "size empty", "two columns":
		if applies = item; item {
			if how == "two columns" {
				f = f[:2]
			} else {
				f = []string{f[0], f[2]}
			}
			join()
		}
	case "one column":
		if applies = item; item {
			f = f[2:]
			join()
		}
	case "four columns", "five columns":
		if applies = item; item {
			f = append(f, "x", "y")[:map[string]int{"four columns": 4, "five columns": 5}[how]]
			join()
		}
	case "orphan line":
		// a continuation line at the start of a stanza
		if applies = i == start || lines[i-1] == ""; applies {
			lines[i] = " orphan\n" + l
		}
	case "no colon":
		lines[i] = "no colon here\n" + l
		if l == "" {
			lines[i] = "no colon here\n"
		}
	default:
		fs := strings.Fields(how)
		if applies = field == fs[1]; applies {
			if fs[0] == "missing" {
				lines = append(lines[:i:i], lines[i+1:]...)
			} else {
				lines[i] = field + ":"
			}
		}
		if field == "Directory" && !strings.HasSuffix(d.path, "Sources") || (field == "Filename" || field == "Size") && !strings.HasSuffix(d.path, "Packages") {
			applies = false
		}
	}
	if !applies {
		return
	}
	t := strings.Join(lines, "\n") + "\n"
	fil, _, err := apt.ExtractFileInfo(d.path, strings.NewReader(t))
	x.Step()
	if err == nil {
		x.Failf("accepted", "%s: %s in line %d (%q): accepted with %d files", d.path, how, i+1, l, len(fil))
	} else if fil != nil {
		x.Failf("list-with-error", "%s: %s in line %d: a list of %d files was returned with error %v", d.path, how, i+1, len(fil), err)
	}
	x.Outcome("%s", how)
}

func a02long(x *explore.X) {
	ds := fixedDocs()
	d := ds[x.Free(len(ds), "document")]
	lines := strings.Split(d.text, "\n")
	i := x.Free(len(lines), "before line")
	n := []int{65535, 65536, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20}[x.Free(6, "length")]
	if i > 0 && i < 3 && strings.HasPrefix(lines[0], "-----BEGIN") {
		return
	}
	long := "X-Long: " + strings.Repeat("y", n-8)
	if lines[i] == "" || strings.HasPrefix(lines[i], " ") {
		long = "# " + strings.Repeat("y", n-2)
	}
	l2 := append(append(append([]string(nil), lines[:i]...), long), lines[i:]...)
	fil, _, err := apt.ExtractFileInfo(d.path, strings.NewReader(strings.Join(l2, "\n")))
	x.Step()
	if err == nil {
		if m := sameEnts(fil, d.want); m != "" {
			x.Failf("long-line", "%s with a line of %d bytes before line %d: %s", d.path, n, i+1, m)
		}
	} else if fil != nil {
		x.Failf("list-with-error", "a list of %d files was returned with error %v", len(fil), err)
	} else if n < 1<<19 {
		x.Failf("refused", "%s with a line of %d bytes before line %d is refused: %v", d.path, n, i+1, err)
	}
	x.Outcome("%d %v", n, err == nil)
}
