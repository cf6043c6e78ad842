package props

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/cybozu-go/aptutil/mirror"
	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vsched"
	"vmc/vwell"
)

const mdir = "/srv/mirror"

// mspec describes one configured mirror.
type mspec struct {
	id       string
	suites   []string
	sections []string
	archs    []string
	source   bool
}

func (s *mspec) config(base string) *mirror.MirrConfig {
	mc := &mirror.MirrConfig{Suites: s.suites, Sections: s.sections, Source: s.source, Architectures: s.archs}
	if err := mc.URL.UnmarshalText([]byte(base)); err != nil {
		panic(err)
	}
	return mc
}

// selected is the reference model of index selection.
func (s *mspec) selected(suite *rsuite, rel string) bool {
	ext := path.Ext(rel)
	switch ext {
	case "", ".gz", ".xz", ".bz2":
	default:
		return false
	}
	base := strings.TrimSuffix(path.Base(rel), ext)
	switch base {
	case "Release", "Index":
		return true
	case "Packages":
		if strings.HasSuffix(s.suites[0], "/") {
			return true
		}
		for _, sec := range s.sections {
			for _, a := range append([]string{"all"}, s.archs...) {
				if hasTail(path.Dir(rel), path.Join(sec, "binary-"+a)) {
					return true
				}
			}
		}
	case "Sources":
		if !s.source {
			return false
		}
		if strings.HasSuffix(s.suites[0], "/") {
			return true
		}
		for _, sec := range s.sections {
			if hasTail(path.Dir(rel), path.Join(sec, "source")) {
				return true
			}
		}
	}
	return false
}

// hasTail reports whether p ends with the whole path components of t.
func hasTail(p, t string) bool {
	return p == t || strings.HasSuffix(p, "/"+t)
}

func suiteDir(s string) string {
	if strings.HasSuffix(s, "/") {
		return path.Clean(strings.TrimPrefix(s, "/") + ".")
	}
	return path.Join("dists", s)
}

// expected is the reference model: the tree a successful update publishes.
func expected(sp *mspec, r *rrepo) map[string]string {
	m := map[string]string{}
	all := r.files()
	for _, sn := range sp.suites {
		d := suiteDir(sn)
		for i := range r.suites {
			s := &r.suites[i]
			if path.Clean(s.dir) != d {
				continue
			}
			for _, n := range s.names {
				m[path.Join(d, n)] = string(all[path.Join(d, n)])
			}
			for n, b := range s.listed() {
				if s.unserved[n] {
					continue
				}
				base := strings.TrimSuffix(path.Base(n), path.Ext(n))
				if base == "Sources" && !sp.source {
					continue
				}
				p := path.Join(d, n)
				m[p] = string(b)
				if s.byhash {
					for _, k := range allSums {
						m[path.Join(path.Dir(p), "by-hash", k, hexsum(k, b))] = string(b)
					}
				}
			}
			for j := range s.indices {
				ix := &s.indices[j]
				exts := ix.exts
				if exts == nil {
					exts = []string{""}
				}
				sel := false
				for _, e := range exts {
					if sp.selected(s, ix.rel+e) && !s.unserved[ix.rel+e] {
						sel = true
					}
				}
				if sel {
					for _, it := range ix.items {
						m[path.Clean(it.path)] = it.body
					}
				}
			}
		}
	}
	return m
}

// mver is an upstream version of one mirror: what is served and what a mirror
// of it must look like.
type mver struct {
	repo  *rrepo
	files map[string][]byte
	want  map[string]string
}

func newVer(sp *mspec, r *rrepo) *mver {
	return &mver{repo: r, files: r.files(), want: expected(sp, r)}
}

// mkit closes the mirror program with a simulated upstream and file system.
type mkit struct {
	x     *explore.X
	fs    *vos.FS
	up    *vhttp.Upstream
	cfg   *mirror.Config
	specs []*mspec
	// cur is what the upstream of each mirror serves
	cur map[string]*mver
	// fault, if set, may change an answer
	fault func(id, p string, r *vhttp.Request, rep *vhttp.Reply)
	// relFaults lets pathFaults change the content of Release files too
	relFaults bool
	n         int
	sigAt     *time.Duration
	// prog makes run start the program itself, with a configuration file
	prog bool
}

func newMkit(x *explore.X, maxConns int, specs ...*mspec) *mkit {
	k := &mkit{x: x, specs: specs, cur: map[string]*mver{}}
	k.fs = vos.Cur
	k.fs.PutDir(mdir)
	k.fs.PutDir(path.Dir(mirrorConf))
	k.cfg = mirror.NewConfig()
	k.cfg.Dir = mdir
	k.cfg.MaxConns = maxConns
	k.cfg.Mirrors = map[string]*mirror.MirrConfig{}
	for _, s := range specs {
		k.cfg.Mirrors[s.id] = s.config("http://up/" + s.id + "/")
	}
	k.up = &vhttp.Upstream{Serve: k.serve, Group: func(r *vhttp.Request) string { id, _ := k.split(r.Path); return id }}
	vhttp.Cur = k.up
	return k
}

func (k *mkit) split(p string) (id, rest string) {
	p = strings.TrimPrefix(p, "/")
	if i := strings.IndexByte(p, '/'); i >= 0 {
		return p[:i], p[i+1:]
	}
	return p, ""
}

func (k *mkit) serve(r *vhttp.Request) vhttp.Reply {
	id, p := k.split(r.Path)
	rep := vhttp.Reply{Status: 404, Body: []byte("not found\n")}
	if v := k.cur[id]; v != nil {
		if b, ok := v.files[p]; ok {
			rep = vhttp.Reply{Status: 200, Body: b}
		}
	}
	if k.fault != nil {
		k.fault(id, p, r, &rep)
	}
	return rep
}

// use switches the file system (crash images).
func (k *mkit) use(fs *vos.FS) { vos.Cur = fs; k.fs = fs }

// run runs the program once as a process and returns its error.
func (k *mkit) run(ids ...string) error {
	k.n++
	p := vsched.NewProc(fmt.Sprintf("run%d", k.n))
	return k.runIn(p, ids...)
}

func (k *mkit) runIn(p *vsched.Proc, ids ...string) error {
	if k.prog {
		return k.runProgramIn(p, k.doc(), ids...)
	}
	var err error
	done := false
	g := vsched.GoIn(p, "run", func() { err = runMirror(k.cfg, ids); done = true })
	vsched.Join(g)
	vsched.Kill(p)
	k.fs.CloseProc(p)
	if !done {
		return errKilled
	}
	return err
}

type killed struct{}

func (killed) Error() string { return "killed" }

var errKilled = killed{}

// tree returns what the public name shows; nil if it does not exist.
func treeOf(fs *vos.FS, id string) map[string]string {
	n := fs.Node(mdir+"/"+id, true)
	if n == nil || !n.IsDir() {
		return nil
	}
	return fs.Files(mdir + "/" + id)
}

func (k *mkit) tree(id string) map[string]string { return treeOf(k.fs, id) }

func sameTree(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// diffTree describes how got differs from want.
func diffTree(got, want map[string]string) string {
	if got == nil {
		return "the public name does not resolve"
	}
	var l []string
	for p, w := range want {
		g, ok := got[p]
		if !ok {
			l = append(l, "missing "+p)
		} else if g != w {
			l = append(l, fmt.Sprintf("%s has %q, want %q", p, clip(g), clip(w)))
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			l = append(l, "unexpected "+p)
		}
	}
	sort.Strings(l)
	if len(l) > 8 {
		l = append(l[:8], "...")
	}
	return strings.Join(l, "; ")
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:57] + "..."
	}
	return s
}

// nextSecond lets virtual time pass so that the next run is at a later second.
func nextSecond() { vsched.Sleep(2 * time.Second) }

// base publishes versions in the current file system without exploring.
func (k *mkit) publish(vers map[string]*mver) {
	k.x.Freeze(true)
	old := k.cur
	k.cur = vers
	f := k.fault
	k.fault = nil
	var ids []string
	for id, v := range vers {
		if v != nil {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	err := k.run(ids...)
	k.cur, k.fault = old, f
	if err != nil {
		k.x.Failf("base-run", "a run against a healthy upstream failed: %v", err)
	}
	nextSecond()
	k.x.Freeze(false)
}

// modesOK checks that everything published is world readable.
func modesOK(fs *vos.FS, id string) string {
	n := fs.Node(mdir+"/"+id, true)
	if n == nil {
		return ""
	}
	bad := ""
	var rec func(p string)
	rec = func(p string) {
		n := fs.Node(p, false)
		m := n.Mode.Perm()
		if n.IsDir() {
			if m&0555 != 0555 {
				bad = fmt.Sprintf("%s has mode %v", p, m)
			}
			for _, e := range n.Names() {
				rec(p + "/" + e)
			}
		} else if m&0444 != 0444 {
			bad = fmt.Sprintf("%s has mode %v", p, m)
		}
	}
	rp, err := resolve(fs, mdir+"/"+id)
	if err == "" {
		rec(rp)
	}
	if err == "" {
		for d := rp; d != "/" && d != "."; d = path.Dir(d) {
			n := fs.Node(d, false)
			if n != nil && n.Mode.Perm()&0555 != 0555 {
				bad = fmt.Sprintf("%s has mode %v", d, n.Mode.Perm())
			}
		}
	}
	return bad
}

// resolve returns the target of the public symlink.
func resolve(fs *vos.FS, p string) (string, string) {
	n := fs.Node(p, false)
	if n == nil {
		return "", "missing"
	}
	if !n.IsLink() {
		return p, ""
	}
	t := n.Target()
	if !strings.HasPrefix(t, "/") {
		t = path.Join(path.Dir(p), t)
	}
	return t, ""
}

// top lists the entries of the mirror directory.
func (k *mkit) top() []string {
	n := k.fs.Node(mdir, true)
	if n == nil {
		return nil
	}
	return n.Names()
}

// runSignal runs the program and delivers SIGTERM before some operation: a
// fault choice at every file system operation, request and body read.
func (k *mkit) runSignal(ids ...string) (err error, signalled bool) {
	k.n++
	p := vsched.NewProc(fmt.Sprintf("run%d", k.n))
	sent := false
	at := func(what string) {
		if !sent && vsched.CurProc() == p && k.x.Fault(2, "SIGTERM before "+what) == 1 {
			sent = true
			if k.sigAt != nil {
				*k.sigAt = vsched.W.Since()
			}
			vwell.Signal(p)
		}
	}
	oldF, oldU := k.fs.Fault, k.fault
	k.fs.Fault = func(op, path string) error {
		at(op + " " + path)
		if oldF != nil {
			return oldF(op, path)
		}
		return nil
	}
	k.fault = func(id, q string, r *vhttp.Request, rep *vhttp.Reply) {
		at("request " + q)
		if oldU != nil {
			oldU(id, q, r, rep)
		}
	}
	err = k.runIn(p, ids...)
	k.fs.Fault, k.fault = oldF, oldU
	return err, sent
}

func runMirror(c *mirror.Config, ids []string) error { return mirror.Run(c, ids) }
