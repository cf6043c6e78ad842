package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"path"
	"strings"

	"github.com/cybozu-go/aptutil/apt"
	"vmc/explore"
	"vmc/vsched"
)

func init() {
	register("A03", "model_checking", aptAssume,
		&explore.Scenario{
			Name: "records", Doc: "every record (path, size, every checksum absent, right or wrong in the first, a middle or the last byte, shorter or longer) from an index, after every sequence of up to three (thorough four) operations (JSON alone, in a map or a list, prefix), against data with every path and size",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: a03records,
		},
		&explore.Scenario{
			Name: "data", Doc: "records computed from data (whole, while copying with every chunking and every failure of reader or writer)",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: a03data,
		},
		&explore.Scenario{
			Name: "prefix", Doc: "every prefix and path over a component alphabet", Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: a03prefix,
		},
	)
}

const a03body = "the data of the file"

// wrongSum is sum damaged as mode says.
func wrongSum(sum string, mode int) string {
	b, _ := hex.DecodeString(sum)
	switch mode {
	case 2:
		b[0] ^= 1
	case 3:
		b[len(b)-1] ^= 0x80
	case 4:
		b[len(b)/2] ^= 0x10
	case 5:
		b = b[:len(b)-1]
	case 6:
		b = append(b, 0)
	}
	return hex.EncodeToString(b)
}

// record makes a FileInfo by reading a Packages stanza.
func record(p string, size uint64, sums map[string]string) *apt.FileInfo {
	t := fmt.Sprintf("Filename: %s\nSize: %d\n", p, size)
	for _, k := range allSums {
		if s := sums[k]; s != "" {
			t += pkgField(k) + ": " + s + "\n"
		}
	}
	fil, _, err := apt.ExtractFileInfo("Packages", strings.NewReader(t))
	if err != nil || len(fil) != 1 {
		panic(fmt.Sprint(t, err))
	}
	return fil[0]
}

func byhashPath(e aent, kind string) string {
	if e.sums[kind] == "" {
		return ""
	}
	return path.Join(path.Dir(e.path), "by-hash", kind, e.sums[kind])
}

// checkRecord compares everything fi shows with the expected entry.
func checkRecord(x *explore.X, fi *apt.FileInfo, e aent, when string) bool {
	if g := entOf(fi); g.String() != e.String() {
		x.Failf("record", "%s: the record is %s, want %s", when, g, e)
		return false
	}
	for k, g := range map[string]string{"MD5Sum": fi.MD5SumPath(), "SHA1": fi.SHA1Path(), "SHA256": fi.SHA256Path()} {
		if w := byhashPath(e, k); g != w {
			x.Failf("by-hash", "%s: by-hash location for %s is %q, want %q (record %s)", when, k, g, w, e)
			return false
		}
	}
	return true
}

var a03ops = []string{"", "json", "json map", "json list", "prefix ub", "prefix a/b", "prefix .", "json value"}

func apply03(op string, fi *apt.FileInfo, e *aent) (*apt.FileInfo, error) {
	switch op {
	case "json":
		b, err := json.Marshal(fi)
		if err != nil {
			return nil, err
		}
		n := new(apt.FileInfo)
		return n, json.Unmarshal(b, n)
	case "json value":
		var w struct{ F *apt.FileInfo }
		w.F = fi
		b, err := json.MarshalIndent(w, " ", "\t")
		if err != nil {
			return nil, err
		}
		var r struct{ F *apt.FileInfo }
		return func() (*apt.FileInfo, error) { err := json.Unmarshal(b, &r); return r.F, err }()
	case "json map":
		var b bytes.Buffer
		if err := json.NewEncoder(&b).Encode(map[string]*apt.FileInfo{"x": fi, "y": fi}); err != nil {
			return nil, err
		}
		m := map[string]*apt.FileInfo{}
		err := json.NewDecoder(&b).Decode(&m)
		return m["x"], err
	case "json list":
		b, err := json.Marshal([]*apt.FileInfo{fi})
		if err != nil {
			return nil, err
		}
		var l []*apt.FileInfo
		if err := json.Unmarshal(b, &l); err != nil {
			return nil, err
		}
		return l[0], nil
	}
	pre := strings.TrimPrefix(op, "prefix ")
	e.path = path.Join(pre, e.path)
	return fi.AddPrefix(pre), nil
}

func a03records(x *explore.X) {
	size := uint64(len(a03body))
	sizes := []uint64{size, size + 1, 0, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, size + 1<<32}
	e := aent{"pool/a.deb", sizes[x.Free(len(sizes), "size")], map[string]string{}}
	match := e.size == size
	for _, k := range allSums {
		m := x.Free(7, k)
		if m == 0 {
			continue
		}
		s := wrongSum(hexsum(k, []byte(a03body)), m)
		e.sums[k] = s
		match = match && m == 1
	}
	orig := record(e.path, e.size, e.sums)
	if !checkRecord(x, orig, e, "read from an index") {
		return
	}
	fi, want := orig, aent{e.path, e.size, e.sums}
	depth := 2
	if e.size == size {
		depth = 3
	}
	if x.Deep {
		depth++
	}
	var ops []string
	for i := 0; i < depth; i++ {
		op := a03ops[x.Free(len(a03ops), "operation")]
		if op == "" {
			break
		}
		ops = append(ops, op)
		before := entOf(fi).String()
		n, err := apply03(op, fi, &want)
		x.Step()
		if err != nil {
			x.Failf("operation", "%v of %s: %v", ops, e, err)
			return
		}
		if a := entOf(fi).String(); a != before {
			x.Failf("original", "%v: the original changed from %s to %s", ops, before, a)
			return
		}
		fi = n
		if !checkRecord(x, fi, want, fmt.Sprint("after ", ops)) {
			return
		}
	}
	// what data does it accept?
	for _, p := range []string{want.path, want.path + "x", "pool/a.deb2", ""} {
		for _, body := range []string{a03body, a03body + "!", "", "The data of the file"} {
			data, err := apt.CopyWithFileInfo(io.Discard, strings.NewReader(body), p)
			if err != nil {
				x.Failf("copy", "%v", err)
				return
			}
			ok := match && p == want.path && body == a03body
			if body != a03body && p == want.path {
				ok = uint64(len(body)) == want.size
				for k, s := range want.sums {
					ok = ok && hexsum(k, []byte(body)) == s
				}
			}
			if g := fi.Same(data); g != ok {
				x.Failf("match", "after %v record %s: data %q of %q: judged %v, want %v", ops, want, body, p, g, ok)
				return
			}
		}
	}
	if !fi.Same(fi) {
		x.Failf("match", "after %v record %s does not match itself", ops, want)
	}
	x.Outcome("%v %v", len(ops), match)
}

var errWrite = errors.New("no space left")

type limWriter struct {
	bytes.Buffer
	n     int
	short bool
}

func (w *limWriter) Write(p []byte) (int, error) {
	if w.n >= 0 && w.Len()+len(p) > w.n {
		k := w.n - w.Len()
		w.Buffer.Write(p[:k])
		if w.short {
			return k, nil
		}
		return k, errWrite
	}
	return w.Buffer.Write(p)
}

func a03data(x *explore.X) {
	bodies := []string{"", "x", a03body, strings.Repeat("0123456789abcdef", 5000), noise("a03", 1<<20+1, false), noise("a03", 17<<20, false)}
	body := bodies[x.Free(len(bodies), "data")]
	p := []string{"x", "pool/a.deb", ""}[x.Free(3, "path")]
	grid := []int{0, 1, 2, len(body) / 2, len(body) - 1, len(body)}
	r := &chunked{b: []byte(body), end: io.EOF}
	st := 0
	if len(body) <= 1<<20 || p == "pool/a.deb" {
		st = x.Free(4, "style")
	}
	if len(body) > 2<<20 && st != 0 {
		return
	}
	r.empty, r.withEnd = st&1 != 0, st&2 != 0
	switch c := x.Free(4, "chunks"); c {
	case 1, 2:
		r.max = []int{0, 1, 4095}[c]
		if c == 1 && len(body) > 1<<20 {
			r.max = 1<<20 - 1
		}
	case 3:
		r.cuts = []int{grid[x.Free(len(grid), "cut")]}
	}
	w := &limWriter{n: -1}
	fails := false
	switch x.Free(4, "failure") {
	case 1:
		at := grid[x.Free(len(grid), "read fails at")]
		if at < 0 || at > len(body) {
			return
		}
		r.b, r.end, fails = r.b[:at], errRead, true
	case 2, 3:
		at := grid[x.Free(len(grid), "write fails at")]
		if at < 0 || at >= len(body) {
			return
		}
		w.n, fails = at, true
		w.short = x.Flag("short write")
	}
	fi, err := apt.CopyWithFileInfo(w, r, p)
	x.Step()
	if fails {
		if err == nil {
			x.Failf("copy-error-lost", "copying failed but a record was returned: %s", entOf(fi))
		}
		return
	}
	if err != nil {
		x.Failf("copy", "copying %d bytes failed: %v", len(body), err)
		return
	}
	want := aent{p, uint64(len(body)), map[string]string{}}
	for _, k := range allSums {
		want.sums[k] = hexsum(k, []byte(body))
	}
	checkRecord(x, fi, want, "after copying")
	if w.String() != body {
		x.Failf("copy", "the copy differs from the data")
	}
	c := apt.MakeFileInfoNoChecksum(p, want.size)
	checkRecord(x, c, aent{p, want.size, nil}, "without checksums")
	if !c.Same(fi) {
		x.Failf("match", "a record without checksums does not match data of its path and size")
	}
	c.CalcChecksums([]byte(body))
	checkRecord(x, c, want, "after CalcChecksums")
	if !c.HasChecksum() || !c.Same(fi) || !fi.Same(c) {
		x.Failf("match", "CalcChecksums and CopyWithFileInfo differ")
	}
	x.Outcome("%d", len(body))
}

func a03prefix(x *explore.X) {
	comps := []string{"", "a", "b.c", ".", "..", "x-y_z"}
	pick := func(n int, label string) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, comps[x.Free(len(comps), label)])
		}
		return strings.Join(l, "/")
	}
	pre := pick(2, "prefix")
	p := pick(3, "path")
	sums := map[string]string{}
	for _, k := range sumSubset(x.Free(8, "checksums")) {
		sums[k] = asum(k, "x")
	}
	if p == "" {
		return
	}
	fi := record("./"+p, 5, sums)
	e := aent{path.Clean("./" + p), 5, sums}
	if !checkRecord(x, fi, e, "read") {
		return
	}
	n := fi.AddPrefix(pre)
	x.Step()
	// prefix and path are joined as path.Join does; for plain names that is prefix/path
	w := e
	w.path = path.Join(path.Clean(pre), e.path)
	checkRecord(x, n, w, fmt.Sprintf("prefix %q of %q", pre, e.path))
	checkRecord(x, fi, e, fmt.Sprintf("original after prefix %q of %q", pre, e.path))
	// it is a new record
	data := []byte("other data")
	if x.Flag("change the original") {
		fi.CalcChecksums(data)
		checkRecord(x, n, w, fmt.Sprintf("prefix %q of %q after a change of the original", pre, e.path))
	} else {
		n.CalcChecksums(data)
		checkRecord(x, fi, e, fmt.Sprintf("original after a change of prefix %q of %q", pre, e.path))
	}
	x.Outcome("%v", strings.Contains(p, ".."))
}
