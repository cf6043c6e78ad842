// Package vwell is github.com/cybozu-go/well's Environment (v1.10.0 env.go)
// over controlled primitives.  The global environment is one per simulated
// process; signals are delivered by the harness with Signal.
package vwell

import (
	"context"
	"errors"
	"net"
	"net/http"
	"time"

	"github.com/cybozu-go/log"
	"github.com/cybozu-go/well"
	"vmc/vsched"
	"vmc/vsync"
)

// Environment is a copy of well.Environment.
type Environment struct {
	ctx    context.Context
	cancel context.CancelFunc
	wg     vsync.WaitGroup

	mu       vsync.RWMutex
	stopped  bool
	stopCh   chan struct{}
	canceled bool
	err      error
}

// NewEnvironment creates a new Environment.
func NewEnvironment(ctx context.Context) *Environment {
	ctx, cancel := context.WithCancel(ctx)
	return &Environment{ctx: ctx, cancel: cancel, stopCh: make(chan struct{})}
}

// Context returns the base context.
func (e *Environment) Context() context.Context { return e.ctx }

// Stop declares no further Go will be called.
func (e *Environment) Stop() {
	e.mu.Lock()
	if !e.stopped {
		e.stopped = true
		close(e.stopCh)
	}
	e.mu.Unlock()
}

// Cancel cancels the base context.
func (e *Environment) Cancel(err error) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.canceled {
		return false
	}
	e.canceled = true
	e.err = err
	e.cancel()
	if e.stopped {
		return true
	}
	e.stopped = true
	close(e.stopCh)
	return true
}

// Wait waits for Stop or Cancel and for all goroutines.
func (e *Environment) Wait() error {
	vsched.Recv[struct{}](e.stopCh)
	e.wg.Wait()
	e.cancel()
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.err
}

// Go starts a goroutine that executes f.
func (e *Environment) Go(f func(ctx context.Context) error) {
	e.mu.RLock()
	if e.stopped {
		e.mu.RUnlock()
		return
	}
	e.wg.Add(1)
	e.mu.RUnlock()
	vsched.Go(func() {
		ctx, cancel := context.WithCancel(e.ctx)
		defer cancel()
		err := f(ctx)
		if err != nil {
			e.Cancel(err)
		}
		e.wg.Done()
	})
}

// GoWithID calls Go with a context having a new request tracking ID.
func (e *Environment) GoWithID(f func(ctx context.Context) error) {
	e.Go(func(ctx context.Context) error {
		return f(well.WithRequestID(ctx, "id"))
	})
}

// ErrSignaled is what a simulated signal cancels the global environment with.
var ErrSignaled = errors.New("signaled")

func global() *Environment {
	p := vsched.CurProc()
	if p == nil {
		panic("well: global environment used outside of a process")
	}
	return Global(p)
}

// Global returns the global environment of p.
func Global(p *vsched.Proc) *Environment {
	e, ok := p.Data.(*Environment)
	if !ok {
		e = NewEnvironment(context.Background())
		p.Data = e
	}
	return e
}

// Stop is well.Stop.
func Stop() { global().Stop() }

// Cancel is well.Cancel.
func Cancel(err error) bool { return global().Cancel(err) }

// Wait is well.Wait.
func Wait() error { return global().Wait() }

// Go is well.Go.
func Go(f func(ctx context.Context) error) { global().Go(f) }

// GoWithID is well.GoWithID.
func GoWithID(f func(ctx context.Context) error) { global().GoWithID(f) }

// Signal simulates SIGINT/SIGTERM for p.
func Signal(p *vsched.Proc) { Global(p).Cancel(ErrSignaled) }

// IsSignaled is well.IsSignaled.
func IsSignaled(err error) bool { return err == ErrSignaled || well.IsSignaled(err) }

// HTTPServer is well.HTTPServer: ListenAndServe returns at once, and requests
// are served (by Serve below) until the environment is cancelled.
type HTTPServer struct {
	*http.Server
	AccessLog       *log.Logger
	ShutdownTimeout time.Duration
	Env             *Environment

	wg      vsync.WaitGroup
	started bool
	down    bool
}

// ListenAndServe replaces well.HTTPServer.ListenAndServe.
func (s *HTTPServer) ListenAndServe() error {
	addr := s.Server.Addr
	if addr == "" {
		addr = ":http"
	}
	if _, err := net.ResolveTCPAddr("tcp", addr); err != nil {
		return err
	}
	e := s.Env
	if e == nil {
		e = global()
	}
	p := vsched.CurProc()
	servers[p] = s
	s.started = true
	e.Go(func(ctx context.Context) error {
		vsched.Recv[struct{}](ctx.Done())
		s.down = true
		s.wg.Wait()
		return nil
	})
	return nil
}

// TimedOut is well.HTTPServer.TimedOut.
func (s *HTTPServer) TimedOut() bool { return false }

var servers = map[*vsched.Proc]*HTTPServer{}

// Reset forgets the servers of earlier executions.
func Reset() { servers = map[*vsched.Proc]*HTTPServer{} }

// Server returns the server p has started, if any, and whether it accepts connections.
func Server(p *vsched.Proc) (*HTTPServer, bool) {
	s := servers[p]
	return s, s != nil && !s.down && !p.Exited
}

// ServeHTTP serves one request as the server would (the caller has started it
// on a goroutine of the process).
func (s *HTTPServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.wg.Add(1)
	defer s.wg.Done()
	h := s.Server.Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	e := s.Env
	if e == nil {
		e = global()
	}
	ctx, cancel := context.WithCancel(e.ctx)
	defer cancel()
	h.ServeHTTP(w, r.WithContext(well.WithRequestID(ctx, "id")))
}

// Down tells whether the server has stopped to accept connections.
func (s *HTTPServer) Down() bool { return s.down }
