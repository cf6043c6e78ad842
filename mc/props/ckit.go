package props

import (
	"context"
	"fmt"
	"net/http"
	"net/url"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/cybozu-go/aptutil/cacher"
	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vsched"
	"vmc/vwell"
)

var cacherAssume = []string{"one cacher per pair of directories; nobody else writes to them",
	"the upstream server of a repository publishes versions one after another and does not go back to older Release files (their signatures are the client's business)",
	"HTTP is simulated at the http.RoundTripper and http.Handler interfaces; net/http itself is trusted"}

const (
	cmeta  = "/srv/meta"
	ccache = "/srv/items"
)

// cresp is a client request and its response.
type cresp struct {
	n            int
	method, path string
	status       int
	hdr          http.Header
	body         string
	sent         []byte // what the handler wrote, also for HEAD
	wrote        bool
	done         bool
	begin, end   time.Duration
	seq, endSeq  int // order of events
	reqs         int // upstream requests before it started
	g            *vsched.G
	k            *ckit
	err          bool  // the client went away
	refused      bool  // the server did not accept it
	gone         error // writing to the client fails
}

func (r *cresp) String() string {
	if !r.done {
		return fmt.Sprintf("%s %s (unanswered)", r.method, r.path)
	}
	return fmt.Sprintf("%s %s: %d %q", r.method, r.path, r.status, clip(r.body))
}

// Header, WriteHeader and Write make it a http.ResponseWriter.
func (r *cresp) Header() http.Header { return r.hdr }

// WriteHeader is http.ResponseWriter's.
func (r *cresp) WriteHeader(c int) {
	if c < 100 || c > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", c))
	}
	if c < 200 && c != 101 {
		return // informational
	}
	if !r.wrote {
		r.wrote = true
		r.status = c
		r.hdr = r.hdr.Clone()
	}
}

func (r *cresp) Write(b []byte) (int, error) {
	if !r.wrote {
		r.WriteHeader(200)
	}
	vsched.Point(vsched.CatUser, "response body")
	if r.gone != nil {
		return 0, r.gone
	}
	if r.status == 304 || r.status == 204 {
		return 0, http.ErrBodyNotAllowed
	}
	r.sent = append(r.sent, b...)
	if r.method == "HEAD" {
		return len(b), nil
	}
	r.body += string(b)
	return len(b), nil
}

// ckit closes the cacher with clients, an upstream and a file system.
type ckit struct {
	x   *explore.X
	fs  *vos.FS
	up  *vhttp.Upstream
	cfg *cacher.Config
	c   *cacher.Cacher
	h   http.Handler
	p   *vsched.Proc
	// files by prefix and path: what the upstream serves now
	cur map[string]map[string][]byte
	// fault may change an answer; p includes the prefix
	fault     func(p string, r *vhttp.Request, rep *vhttp.Reply)
	bases     map[string]string // prefix -> host/base/
	seq       int
	n         int
	all       []*cresp
	signalled bool
	ctx       context.Context // of requests, if not nil
	ver       int             // last version
	names     []string        // Release files
	prog      bool            // start starts the program itself, with a configuration file
	hb        sync.Mutex      // shows the race detector that clients come after the start
}

// newCkit makes a kit with repositories; the default is prefix "u".
func newCkit(x *explore.X, prefixes ...string) *ckit {
	k := &ckit{x: x, fs: vos.Cur, cur: map[string]map[string][]byte{}, bases: map[string]string{}}
	if len(prefixes) == 0 {
		prefixes = []string{"u"}
	}
	k.cfg = cacher.NewConfig()
	k.cfg.MetaDirectory = cmeta
	k.cfg.CacheDirectory = ccache
	k.cfg.Mapping = map[string]string{}
	for _, p := range prefixes {
		k.mapTo(p, "http://up-"+p+"/base/"+p)
	}
	k.fs.PutDir("/srv")
	k.up = &vhttp.Upstream{Serve: k.serve}
	vhttp.Cur = k.up
	return k
}

func (k *ckit) mapTo(prefix, base string) {
	k.cfg.Mapping[prefix] = base
	u, err := url.Parse(base)
	if err != nil {
		panic(err)
	}
	k.bases[prefix] = u.Host + strings.TrimSuffix(u.Path, "/") + "/"
}

// split finds the prefix and path of an upstream request.
func (k *ckit) split(r *vhttp.Request) (prefix, p string) {
	full := r.Host + r.Path
	best := ""
	for pre, b := range k.bases {
		if strings.HasPrefix(full, b) && len(b) >= len(best) && (prefix == "" || len(b) > len(best) || pre < prefix) {
			prefix, best = pre, b
		}
	}
	return prefix, full[len(best):]
}

func (k *ckit) serve(r *vhttp.Request) vhttp.Reply {
	k.seq++
	pre, p := k.split(r)
	rep := vhttp.Reply{Status: 404, Body: []byte("not found\n")}
	if b, ok := k.cur[pre][p]; ok {
		rep = vhttp.Reply{Status: 200, Body: b}
	}
	if k.fault != nil {
		k.fault(pre+"/"+p, r, &rep)
	}
	return rep
}

// start starts the program; it returns the error that ended it.
func (k *ckit) start() error {
	if k.prog {
		return k.startProgram(k.doc())
	}
	k.n++
	k.p = vsched.NewProc(fmt.Sprintf("cacher%d", k.n))
	var err error
	done := false
	g := vsched.GoIn(k.p, "main", func() {
		var c *cacher.Cacher
		c, err = cacher.NewCacher(k.cfg)
		if err == nil {
			k.c = c
			k.h = cacher.NewServer(c, k.cfg).Handler
		}
		k.hb.Lock()
		k.hb.Unlock()
		done = true
	})
	vsched.Join(g)
	if !done {
		return errKilled
	}
	return err
}

// mustStart starts the program and reports a violation if that fails.
func (k *ckit) mustStart() bool {
	if err := k.start(); err != nil {
		k.x.Failf("start", "the cacher does not start: %v", err)
		return false
	}
	return true
}

// stop kills the program.
func (k *ckit) stop() {
	vsched.Kill(k.p)
	k.fs.CloseProc(k.p)
	k.c, k.h = nil, nil
}

// use switches the file system.
func (k *ckit) use(fs *vos.FS) { vos.Cur = fs; k.fs = fs }

// send sends a request; the response arrives later.
func (k *ckit) send(method, p string) *cresp { return k.sendURL(method, &url.URL{Path: p}, nil) }

func (k *ckit) sendURL(method string, u *url.URL, hdr http.Header) *cresp {
	if hdr == nil {
		hdr = http.Header{}
	}
	r := &cresp{n: len(k.all), method: method, path: u.Path, hdr: http.Header{}, k: k, begin: k.x.W.Since(), reqs: len(k.up.Log)}
	k.seq++
	r.seq = k.seq
	k.all = append(k.all, r)
	req := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: hdr, Host: "cache:3142", RequestURI: u.RequestURI(), RemoteAddr: "192.0.2.1:1", Body: http.NoBody}
	k.hb.Lock()
	h := k.h
	k.hb.Unlock()
	srv, _ := h.(*vwell.HTTPServer)
	if srv == nil { // as well.HTTPServer does
		req = req.WithContext(vwell.Global(k.p).Context())
	}
	if k.ctx != nil {
		req = req.WithContext(k.ctx)
	}
	if srv != nil && (srv.Down() || k.p.Exited) {
		r.refused, r.done = true, true
		return r
	}
	r.g = vsched.GoIn(k.p, "client", func() {
		h.ServeHTTP(r, req)
		if !r.wrote {
			r.WriteHeader(200)
		}
		// as net/http does
		if noBody := r.status < 200 || r.status == 204 || r.status == 304; noBody {
			r.hdr.Del("Content-Length")
		} else if r.hdr.Get("Content-Length") == "" && (method != "HEAD" || len(r.sent) > 0) {
			r.hdr.Set("Content-Length", strconv.Itoa(len(r.sent)))
		}
		if _, ok := r.hdr["Content-Type"]; !ok && len(r.sent) > 0 {
			r.hdr.Set("Content-Type", http.DetectContentType(r.sent))
		}
		k.seq++
		r.endSeq = k.seq
		r.end = k.x.W.Since()
		r.done = true
	})
	return r
}

// wait waits until the requests are answered, at most for d.
func (k *ckit) wait(d time.Duration, rs ...*cresp) bool {
	late := false
	t := vsched.AfterFunc(d, func() { late = true })
	all := func() bool {
		for _, r := range rs {
			if !r.done {
				return false
			}
		}
		return true
	}
	vsched.WaitFor(0, "responses", func() bool { return late || all() })
	t.Stop()
	return all()
}

const patience = 20 * time.Minute

// get sends a GET and waits for the answer; no answer is a violation.
func (k *ckit) get(p string) *cresp { return k.do("GET", p) }

func (k *ckit) do(method, p string) *cresp {
	r := k.send(method, p)
	k.answered(r)
	return r
}

// answered waits for the answers of all rs.
func (k *ckit) answered(rs ...*cresp) bool {
	if k.wait(patience, rs...) {
		return true
	}
	if k.p.Exited {
		k.x.Failf("exit", "the program exits with status %d", k.p.ExitCode)
	}
	for _, r := range rs {
		if !r.done && !k.x.Failed() {
			k.x.Failf("unanswered", "%s %s is not answered within %v (%d upstream requests since)", r.method, r.path, patience, len(k.up.Log)-r.reqs)
		}
	}
	return false
}

// fetches counts upstream requests for p (with prefix).
func (k *ckit) fetches(p string) int {
	return k.up.Count(func(r *vhttp.Request) bool { pre, q := k.split(r); return pre+"/"+q == p })
}

// publish makes the upstream serve files under prefix.
func (k *ckit) publish(prefix string, files map[string][]byte) {
	k.seq++
	k.cur[prefix] = files
}

// disk returns the cached items below dir by name.
func (k *ckit) disk(dir string) map[string]string { return cacheFiles(k.fs, dir) }

func sortedKeys[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// cver is a version of a repository: files, and for each index what it lists.
type cver struct {
	files map[string][]byte
	lists map[string][]string // index -> listed paths
}

// newCver renders r.
func newCver(r *rrepo) *cver {
	v := &cver{files: r.files(), lists: map[string][]string{}}
	for i := range r.suites {
		s := &r.suites[i]
		var l []string
		for n := range s.listed() {
			l = append(l, path.Join(s.dir, n))
		}
		sort.Strings(l)
		for _, n := range s.names {
			if n != "Release.gpg" {
				v.lists[path.Join(s.dir, n)] = l
			}
		}
		for j := range s.indices {
			ix := &s.indices[j]
			exts := ix.exts
			if exts == nil {
				exts = []string{""}
			}
			var l []string
			for _, it := range ix.items {
				l = append(l, path.Clean(it.path))
			}
			for _, e := range exts {
				v.lists[path.Join(s.dir, ix.rel)+e] = l
			}
		}
	}
	return v
}

// crepo is the standard repository of the cacher scenarios: item names stay
// the same in all versions, contents of "a" change, "keep" does not.
func crepo(ver string, names ...string) *rrepo {
	if names == nil {
		names = []string{"Release", "Release.gpg"}
	}
	return &rrepo{suites: []rsuite{{
		dir: "dists/s", names: names, note: "version " + ver,
		indices: []rindex{
			{rel: "main/binary-amd64/Packages", exts: []string{"", ".gz"}, items: []ritem{
				it("pool/a.deb", "content a of version "+ver), it("pool/keep.deb", "the same forever")}},
		},
	}}}
}

const (
	cRel  = "dists/s/Release"
	cPkg  = "dists/s/main/binary-amd64/Packages"
	cItem = "pool/a.deb"
	cKeep = "pool/keep.deb"
)

var cvers = map[string]*cver{}

func cver0(ver string, names ...string) *cver {
	key := ver + strings.Join(names, ",")
	if cvers[key] == nil {
		cvers[key] = newCver(crepo(ver, names...))
	}
	return cvers[key]
}

// chist judges responses against the published versions of one prefix.
type chist struct {
	k      *ckit
	prefix string
	vers   []*cver // in order of publication
	at     []int   // sequence number of publication
}

func (h *chist) publish(v *cver) {
	h.vers = append(h.vers, v)
	h.k.publish(h.prefix, v.files)
	h.at = append(h.at, h.k.seq)
}

// judge checks that no response contradicts an index received before it was
// requested, and that all bodies are complete upstream files.
func (h *chist) judge() {
	x := h.k.x
	rs := append([]*cresp(nil), h.k.all...)
	rel := func(r *cresp) (string, bool) {
		p := strings.TrimPrefix(path.Clean("/"+r.path), "/")
		if !strings.HasPrefix(p, h.prefix+"/") {
			return "", false
		}
		return p[len(h.prefix)+1:], true
	}
	ok := func(r *cresp) bool { return r.done && r.method == "GET" && r.status == 200 }
	for _, r := range rs {
		p, mine := rel(r)
		if !mine || !ok(r) {
			continue
		}
		// the oldest version the response may be from
		min, why := 0, ""
		for _, q := range rs {
			qp, mine := rel(q)
			if !mine || !ok(q) || q.endSeq >= r.seq {
				continue
			}
			for n, v := range h.vers {
				if string(v.files[qp]) != q.body {
					continue
				}
				listed := false
				for _, l := range v.lists[qp] {
					if l == p {
						listed = true
					}
				}
				if listed && n > min {
					min, why = n, qp
				}
				break // the oldest version with this content
			}
		}
		known := false
		for _, q := range rs {
			qp, mine := rel(q)
			if mine && ok(q) && q.endSeq < r.seq {
				for _, v := range h.vers {
					if string(v.files[qp]) == q.body {
						for _, l := range v.lists[qp] {
							known = known || l == p
						}
					}
				}
			}
		}
		match := -1
		for n := len(h.vers) - 1; n >= 0; n-- {
			if b, has := h.vers[n].files[p]; has && string(b) == r.body {
				match = n
				break
			}
		}
		switch {
		case match < 0 && known:
			x.Failf("garbage", "%s: matches no version although its checksum was served before", r)
		case match < 0:
		case match < min:
			x.Failf("contradiction", "%s is of version %d, but %s of version %d was served before", r, match+1, why, min+1)
		}
	}
}

// fsFault makes any one file system operation of the program fail.
func (k *ckit) fsFault() {
	sticky := map[string]bool{}
	k.fs.Fault = func(op, p string) error {
		if vsched.CurProc() != k.p {
			return nil
		}
		n := 2
		if op == "write" {
			n = 3
		}
		if sticky[op+p] {
			return syscall.EIO
		}
		more := k.x.Sc.Quick.Fault == 1
		if more {
			n += 2
		}
		c := k.x.Fault(n, "fs fault: "+op+" "+p)
		switch {
		case c == 0:
		case c == 1:
			return syscall.EIO
		case more && c == n-1: // and whenever it is tried again
			sticky[op+p] = true
			return syscall.EIO
		case more && c == n-2:
			return syscall.EACCES
		default:
			return vos.ErrShort
		}
		return nil
	}
}

// signals delivers SIGTERM before any one operation.
func (k *ckit) signals() {
	at := func(what string) {
		if !k.signalled && vsched.CurProc() == k.p && k.x.Fault(2, "SIGTERM before "+what) == 1 {
			k.signalled = true
			vwell.Signal(k.p)
		}
	}
	k.fs.Fault = func(op, path string) error { at(op + " " + path); return nil }
	k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) { at("request " + p) }
}
