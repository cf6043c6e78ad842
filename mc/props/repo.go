package props

import (
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/ulikunitz/xz"
)

// The upstream repository model: structures from which the files, and
// independently of any parser the expected mirror contents, are derived.

// ritem is a package or source file.
type ritem struct {
	path string
	body string
}

// rindex is an index below a suite.
type rindex struct {
	rel    string   // path relative to the Release file's directory
	exts   []string // "" ".gz" ".xz": forms listed and served
	items  []ritem
	stanza string // extra fields of each stanza
	raw    []byte // content, instead of items
	sums   []string
	dir    string // Index: directory of the file, relative to the root
}

// rsuite is one suite.
type rsuite struct {
	dir     string   // directory of the Release file, "." for the root
	names   []string // Release files served
	byhash  bool
	sums    []string // checksum sections (default all)
	indices []rindex
	note    string // makes the Release file unique
	// unlisted index paths are served but not listed; unserved ones listed only
	unserved map[string]bool
}

// rrepo is a repository version.
type rrepo struct {
	suites []rsuite
}

var allSums = []string{"MD5Sum", "SHA1", "SHA256"}

func hexsum(kind string, b []byte) string {
	switch kind {
	case "MD5Sum", "MD5sum", "Files":
		s := md5.Sum(b)
		return hex.EncodeToString(s[:])
	case "SHA1", "Checksums-Sha1":
		s := sha1.Sum(b)
		return hex.EncodeToString(s[:])
	}
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:])
}

func gz(b []byte) []byte {
	var w bytes.Buffer
	z, _ := gzip.NewWriterLevel(&w, 1)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

func xzb(b []byte) []byte {
	var w bytes.Buffer
	z, err := xz.NewWriter(&w)
	if err != nil {
		panic(err)
	}
	z.Write(b)
	z.Close()
	return w.Bytes()
}

func compress(ext string, b []byte) []byte {
	switch ext {
	case ".gz":
		return gz(b)
	case ".xz":
		return xzb(b)
	}
	return b
}

// packages renders a Packages index.
func packages(items []ritem, sums ...string) []byte {
	if len(sums) == 0 {
		sums = []string{"MD5sum", "SHA1", "SHA256"}
	}
	var b strings.Builder
	for i, it := range items {
		if i > 0 {
			b.WriteString("\n")
		}
		fmt.Fprintf(&b, "Package: %s\nFilename: %s\nSize: %d\n", path.Base(it.path), it.path, len(it.body))
		for _, s := range sums {
			fmt.Fprintf(&b, "%s: %s\n", s, hexsum(s, []byte(it.body)))
		}
	}
	return []byte(b.String())
}

// sources renders a Sources index, one stanza per directory.
func sources(items []ritem) []byte {
	dirs := map[string][]ritem{}
	var order []string
	for _, it := range items {
		d := path.Dir(it.path)
		if dirs[d] == nil {
			order = append(order, d)
		}
		dirs[d] = append(dirs[d], it)
	}
	sort.Strings(order)
	var b strings.Builder
	for _, d := range order {
		fmt.Fprintf(&b, "Package: src\nDirectory: %s\n", d)
		for _, k := range []string{"Files", "Checksums-Sha1", "Checksums-Sha256"} {
			fmt.Fprintf(&b, "%s:\n", k)
			for _, it := range dirs[d] {
				fmt.Fprintf(&b, " %s %d %s\n", hexsum(k, []byte(it.body)), len(it.body), path.Base(it.path))
			}
		}
		b.WriteString("\n")
	}
	return []byte(b.String())
}

func (ix *rindex) content() []byte {
	if ix.raw != nil {
		return ix.raw
	}
	switch path.Base(ix.rel) {
	case "Sources":
		return sources(ix.items)
	case "Packages":
		return packages(ix.items, ix.sums...)
	case "Index":
		m := map[string][]byte{}
		for _, it := range ix.items {
			rel := strings.TrimPrefix(it.path, ix.dir+"/")
			m[rel] = []byte(it.body)
		}
		return indexText(m)
	case "Release":
		return []byte("Archive: s\nComponent: main\n")
	}
	return []byte("contents of " + ix.rel + "\n")
}

// releaseText renders a Release file listing files.
func releaseText(files map[string][]byte, sums []string, note string, byhash bool) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "Origin: test\nDescription: %s\n", note)
	if byhash {
		b.WriteString("Acquire-By-Hash: yes\n")
	}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, s := range sums {
		fmt.Fprintf(&b, "%s:\n", s)
		for _, n := range names {
			fmt.Fprintf(&b, " %s %d %s\n", hexsum(s, files[n]), len(files[n]), n)
		}
	}
	return []byte(b.String())
}

// indexText renders an i18n/Index file.
func indexText(files map[string][]byte) []byte {
	var b strings.Builder
	b.WriteString("SHA1:\n")
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, " %s %d %s\n", hexsum("SHA1", files[n]), len(files[n]), n)
	}
	return []byte(b.String())
}

func clearsign(b []byte) []byte {
	return []byte("-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\n" + string(b) +
		"-----BEGIN PGP SIGNATURE-----\n\niQ==\n-----END PGP SIGNATURE-----\n")
}

// listed returns the files a suite's Release lists: relative path -> content.
func (s *rsuite) listed() map[string][]byte {
	m := map[string][]byte{}
	for i := range s.indices {
		ix := &s.indices[i]
		exts := ix.exts
		if exts == nil {
			exts = []string{""}
		}
		for _, e := range exts {
			m[ix.rel+e] = compress(e, ix.content())
		}
	}
	return m
}

func (s *rsuite) sumNames() []string {
	if s.sums != nil {
		return s.sums
	}
	return allSums
}

var byHashDir = map[string]string{"MD5Sum": "MD5Sum", "SHA1": "SHA1", "SHA256": "SHA256"}

// files renders everything the upstream serves.
func (r *rrepo) files() map[string][]byte {
	m := map[string][]byte{}
	for i := range r.suites {
		s := &r.suites[i]
		l := s.listed()
		rel := releaseText(l, s.sumNames(), s.note, s.byhash)
		for _, n := range s.names {
			p := path.Join(s.dir, n)
			switch n {
			case "InRelease":
				m[p] = clearsign(rel)
			case "Release.gpg":
				m[p] = []byte("signature of " + s.note + "\n")
			case "Release.gz":
				m[p] = gz(rel)
			case "InRelease.gz":
				m[p] = gz(clearsign(rel))
			default:
				m[p] = rel
			}
		}
		for n, b := range l {
			if s.unserved[n] {
				continue
			}
			p := path.Join(s.dir, n)
			m[p] = b
			if s.byhash {
				for _, k := range s.sumNames() {
					m[path.Join(path.Dir(p), "by-hash", k, hexsum(k, b))] = b
				}
			}
		}
		for _, ix := range s.indices {
			for _, it := range ix.items {
				m[path.Clean(it.path)] = []byte(it.body)
			}
		}
	}
	return m
}
