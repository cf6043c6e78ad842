// Package vhttp replaces the HTTP transports of the code under test by a
// simulated upstream.
package vhttp

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"vmc/vsched"
)

// Transport has the fields of http.Transport; its RoundTrip is simulated.
type Transport http.Transport

// DefaultTransport replaces http.DefaultTransport.
var DefaultTransport http.RoundTripper = &Transport{}

func init() { http.DefaultTransport = DefaultTransport }

// Clone clones t.
func (t *Transport) Clone() *Transport {
	return &Transport{MaxIdleConns: t.MaxIdleConns, MaxIdleConnsPerHost: t.MaxIdleConnsPerHost, MaxConnsPerHost: t.MaxConnsPerHost}
}

// CloseIdleConnections does nothing.
func (t *Transport) CloseIdleConnections() {}

// CancelRequest does nothing.
func (t *Transport) CancelRequest(*http.Request) {}

// RegisterProtocol does nothing.
func (t *Transport) RegisterProtocol(string, http.RoundTripper) {}

// ListenAndServe must not be called.
func ListenAndServe(addr string, h http.Handler) error {
	return errors.New("ListenAndServe is not simulated")
}

// Reply is what the upstream answers.
type Reply struct {
	Status    int // 0: connection error
	Body      []byte
	CutAt     int           // >0: the transfer breaks after CutAt-1 bytes with an error
	Delay     time.Duration // before the header
	BodyDelay time.Duration // before the end of the body
	Header    http.Header
	NoLen     bool // no Content-Length
	Chunk     int  // read granularity, 0: everything
}

// Request is one upstream request as seen by the upstream.
type Request struct {
	N      int
	Proc   string
	Scheme string
	Host   string
	Path   string // decoded
	Raw    string // full URL
	Query  string
	Method string
	At     time.Duration
	Status int
	Open   bool
	Done   time.Duration
}

// Upstream is the simulated network.
type Upstream struct {
	Serve func(r *Request) Reply
	Log   []*Request
	open  []hostCount
	// MaxOpen is the maximum number of open connections seen, per key.
	max []hostCount
	// OnOpen is called whenever a connection is opened.
	OnOpen func(r *Request, open int)
	// Group, if set, gives the counting key of a request (default: host).
	Group func(r *Request) string
	total int
}

type hostCount struct {
	k string
	n int
}

func add(l *[]hostCount, k string, d int) int {
	for i := range *l {
		if (*l)[i].k == k {
			(*l)[i].n += d
			return (*l)[i].n
		}
	}
	*l = append(*l, hostCount{k, d})
	return d
}

// Cur is the upstream in use.
var Cur *Upstream

// Open returns the number of open connections for a key.
func (u *Upstream) Open(k string) int { return add(&u.open, k, 0) }

// Max returns the maximum number of open connections for a key.
func (u *Upstream) Max(k string) int { return add(&u.max, k, 0) }

// Total returns the number of open connections.
func (u *Upstream) Total() int { return u.total }

// Count returns how many requests satisfy f.
func (u *Upstream) Count(f func(r *Request) bool) int {
	n := 0
	for _, r := range u.Log {
		if f(r) {
			n++
		}
	}
	return n
}

func (u *Upstream) key(r *Request) string {
	if u.Group != nil {
		return u.Group(r)
	}
	return r.Host
}

func ctxSleep(ctx context.Context, d time.Duration) error {
	c := vsched.CR(ctx.Done())
	t := time.NewTimer(d)
	defer t.Stop()
	tc := vsched.CR(t.C)
	if vsched.Select(false, c, tc) == 0 {
		return ctx.Err()
	}
	return nil
}

// RoundTrip simulates one request.
func (t *Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	u := Cur
	if u == nil {
		return nil, errors.New("no upstream")
	}
	vsched.Point(vsched.CatHTTP, "http "+req.URL.Path)
	ctx := req.Context()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	r := &Request{N: len(u.Log), Scheme: req.URL.Scheme, Host: req.URL.Host, Path: req.URL.Path,
		Raw: req.URL.String(), Query: req.URL.RawQuery, Method: req.Method, Open: true}
	if p := vsched.CurProc(); p != nil {
		r.Proc = p.Name
		r.At = vsched.W.Since()
	}
	u.Log = append(u.Log, r)
	k := u.key(r)
	n := add(&u.open, k, 1)
	u.total++
	if n > u.Max(k) {
		add(&u.max, k, n-u.Max(k))
	}
	vsched.Tracef("upstream GET %s (open %d)", r.Raw, n)
	if u.OnOpen != nil {
		u.OnOpen(r, n)
	}
	closed := false
	finish := func() {
		if !closed {
			closed = true
			add(&u.open, k, -1)
			u.total--
			r.Open = false
			if vsched.W != nil {
				r.Done = vsched.W.Since()
			}
		}
	}
	rep := u.Serve(r)
	r.Status = rep.Status
	if rep.Delay > 0 {
		if err := ctxSleep(ctx, rep.Delay); err != nil {
			finish()
			return nil, err
		}
	}
	if rep.Status == 0 {
		finish()
		return nil, errors.New("connection refused (simulated)")
	}
	vsched.Tracef("upstream answers %d (%d bytes, cut %d) for %s", rep.Status, len(rep.Body), rep.CutAt, r.Path)
	h := rep.Header
	if h == nil {
		h = http.Header{}
	}
	resp := &http.Response{
		Status:        fmt.Sprintf("%d %s", rep.Status, http.StatusText(rep.Status)),
		StatusCode:    rep.Status,
		Proto:         "HTTP/1.1",
		ProtoMajor:    1,
		ProtoMinor:    1,
		Header:        h,
		Request:       req,
		ContentLength: int64(len(rep.Body)),
	}
	if rep.NoLen {
		resp.ContentLength = -1
	}
	data := rep.Body
	var end error = io.EOF
	if rep.CutAt > 0 {
		c := rep.CutAt - 1
		if c < len(data) {
			data = data[:c]
		}
		end = io.ErrUnexpectedEOF
	}
	resp.Body = &body{r: strings.NewReader(string(data)), end: end, finish: finish, ctx: ctx, delay: rep.BodyDelay, chunk: rep.Chunk}
	return resp, nil
}

type body struct {
	r      *strings.Reader
	end    error
	finish func()
	ctx    context.Context
	delay  time.Duration
	chunk  int
	closed bool
	ended  bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.ended {
		return 0, b.end
	}
	vsched.Point(vsched.CatHTTP, "body")
	if err := b.ctx.Err(); err != nil {
		b.finish()
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if b.chunk > 0 && len(p) > b.chunk {
		p = p[:b.chunk]
	}
	if b.r.Len() > 0 {
		return b.r.Read(p)
	}
	if b.delay > 0 {
		d := b.delay
		b.delay = 0
		if err := ctxSleep(b.ctx, d); err != nil {
			b.finish()
			return 0, err
		}
	}
	b.ended = true
	b.finish()
	return 0, b.end
}

func (b *body) Close() error {
	b.closed = true
	b.finish()
	return nil
}
