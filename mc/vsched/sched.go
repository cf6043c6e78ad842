// Package vsched is the controlled scheduler.
//
// One World is one execution.  It runs inside a synctest bubble, so native
// channels, timers and contexts keep their exact semantics over virtual time;
// every goroutine of the code under test stops at each visible operation
// (Point) and runs only when the controller resumes it.  At most one goroutine
// of the World runs at any moment.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"time"
	_ "unsafe"
)

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

//go:linkname synctestWait internal/synctest.Wait
func synctestWait()

func getg() uintptr

// Kind is the kind of a choice.
type Kind uint8

// Choice kinds.  Alternatives of KSched and KFault other than 0 cost one unit
// of the respective budget; KFree alternatives are all explored.
const (
	KSched Kind = iota
	KFault
	KFree
)

// Point categories; a World can leave some of them out (coarser scheduling).
const (
	CatSync = 1 << iota // locks, wait groups
	CatChan             // channel operations
	CatFS               // file system operations on names
	CatHTTP             // upstream traffic
	CatIO               // reads and writes on open files or bodies
	CatGo               // goroutine start
	CatUser             // harness points
	CatAll  = 0xffff
)

// Proc is a simulated operating system process.
type Proc struct {
	Name     string
	Data     interface{} // process-wide state of shims (well environment, ...)
	dead     chan struct{}
	kill     bool
	live     int
	Exited   bool
	ExitCode int
}

const (
	stRunning = iota
	stParked
	stBlocked
	stDone
)

// G is a controlled goroutine.
type G struct {
	ID    int
	Name  string
	Proc  *Proc
	wake  chan struct{}
	state int
	cond  func() bool
	what  string
	gp    uintptr
	prio  int
}

// PanicInfo describes a panic that escaped a goroutine.
type PanicInfo struct {
	G     string
	Proc  string
	Value string
	Stack string
}

// World is one execution.
type World struct {
	Choose  func(kind Kind, n int, label func() string) int
	Mask    int // categories that are scheduling points
	MaxStep int
	Horizon time.Duration
	Trace   func(s string)
	MapDesc bool // reverse map iteration order
	SelRev  bool // prefer later select cases
	// Prio selects priority scheduling: the ready goroutine of the highest
	// priority runs; a deviation moves it behind all others for good.
	Prio    bool
	PrioNew bool // later goroutines have higher priorities
	low     int

	mu     sync.Mutex
	gs     []*G
	cur    *G
	ctl    chan struct{}
	Env    *Proc
	procs  []*Proc
	Steps  int
	nextID int

	mainDone bool
	tearing  bool
	start    time.Time

	Panics   []PanicInfo
	Stuck    bool   // nothing can run any more (or only timers that change nothing)
	StepOver bool   // step limit hit
	Dump     string // goroutine states when stuck
	Internal string // failure of the machinery itself
	stop     bool
	endHooks []func()
}

// GiB is the unit of the cacher's capacity as the instrumentation scales it.
const GiB = 1 << 6

// W is the current world, nil outside executions.
var W *World

// Active reports whether an execution is running.
func Active() bool { return W != nil }

// NewProc makes a process.
func NewProc(name string) *Proc {
	p := &Proc{Name: name, dead: make(chan struct{})}
	if W != nil {
		W.procs = append(W.procs, p)
	}
	return p
}

// Dead reports whether the process was killed.
func (p *Proc) Dead() bool { return p.kill }

// CurProc returns the process of the running goroutine.
func CurProc() *Proc {
	if W == nil || W.cur == nil {
		return nil
	}
	return W.cur.Proc
}

// CurG returns the running goroutine.
func CurG() *G {
	if W == nil {
		return nil
	}
	return W.cur
}

// Run executes main as the first goroutine (process "env") of the world.
func (w *World) Run(main func()) {
	if w.Mask == 0 {
		w.Mask = CatAll
	}
	if w.MaxStep == 0 {
		w.MaxStep = 20000
	}
	if w.Horizon == 0 {
		w.Horizon = 12 * time.Hour
	}
	defer func() { W = nil }()
	defer func() {
		if e := recover(); e != nil {
			w.Internal = fmt.Sprint("bubble: ", e, " ", w.Dump)
		}
	}()
	synctestRun(func() {
		raceOff()
		defer raceOn()
		W = w
		w.start = time.Now()
		w.ctl = make(chan struct{}, 1)
		w.Env = NewProc("env")
		g := w.newG("main", w.Env)
		w.spawn(g, func() { defer func() { w.mainDone = true }(); main() })
		w.loop()
		// tear down: let everything unwind
		w.tearing = true
		for _, p := range w.procs {
			w.markKilled(p)
		}
		for i := 0; i < 100000; i++ {
			synctestWait()
			g := w.anyParked()
			if g == nil {
				break
			}
			w.resume(g)
		}
		for _, f := range w.endHooks {
			f()
		}
	})
}

// AtEnd registers f to run when the world has been torn down.
func AtEnd(f func()) { W.endHooks = append(W.endHooks, f) }

func (w *World) anyParked() *G {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, g := range w.gs {
		if g.state == stParked {
			return g
		}
	}
	return nil
}

func (w *World) markKilled(p *Proc) {
	if !p.kill {
		p.kill = true
		close(p.dead)
	}
}

func (w *World) newG(name string, p *Proc) *G {
	w.mu.Lock()
	g := &G{ID: w.nextID, Name: name, Proc: p, wake: make(chan struct{})}
	w.nextID++
	p.live++
	w.gs = append(w.gs, g)
	w.mu.Unlock()
	return g
}

func (w *World) spawn(g *G, f func()) {
	raceOn()
	go func() {
		raceOff()
		g.gp = getg()
		defer func() {
			e := recover()
			w.mu.Lock()
			if e != nil && !w.tearing && !g.Proc.kill {
				w.Panics = append(w.Panics, PanicInfo{g.Name, g.Proc.Name, fmt.Sprint(e), string(debug.Stack())})
				w.stop = true
			}
			g.state = stDone
			g.Proc.live--
			for i, h := range w.gs {
				if h == g {
					w.gs = append(w.gs[:i], w.gs[i+1:]...)
					break
				}
			}
			w.mu.Unlock()
			w.signal()
		}()
		w.park(g, "start", nil)
		raceOn()
		defer raceOff()
		f()
	}()
	raceOff()
}

func (w *World) signal() {
	select {
	case w.ctl <- struct{}{}:
	default:
	}
}

// park gives control back to the controller until cond holds and the
// controller picks g.  It must be called with race detection off.
func (w *World) park(g *G, what string, cond func() bool) {
	w.mu.Lock()
	g.state = stParked
	g.cond = cond
	g.what = what
	w.mu.Unlock()
	w.signal()
	<-g.wake
	if g.Proc.kill {
		raceOn()
		runtime.Goexit()
	}
}

func (w *World) resume(g *G) {
	w.cur = g
	g.state = stRunning
	g.wake <- struct{}{}
}

func (w *World) loop() {
	horizon := time.NewTimer(w.Horizon)
	defer horizon.Stop()
	var ready []*G
	for {
		synctestWait()
		if w.stop || w.Internal != "" {
			return
		}
		if w.mainDone {
			return
		}
		ready = ready[:0]
		var killed *G
		w.mu.Lock()
		for _, g := range w.gs {
			if g.state != stParked {
				continue
			}
			if g.Proc.kill {
				killed = g
				break
			}
			if g.cond == nil || g.cond() {
				ready = append(ready, g)
			}
		}
		w.mu.Unlock()
		if killed != nil {
			w.resume(killed)
			continue
		}
		if len(ready) == 0 {
			select {
			case <-w.ctl:
			case <-horizon.C:
				w.Stuck = true
				w.Dump = w.dump()
				return
			}
			continue
		}
		if w.Steps >= w.MaxStep {
			w.StepOver = true
			w.Dump = w.dump()
			return
		}
		w.Steps++
		idx := 0
		if len(ready) > 1 && w.Prio {
			w.orderPrio(ready)
			idx = w.Choose(KSched, 2, func() string { return "demote " + ready[0].String() })
			if idx == 1 {
				w.low++
				ready[0].prio = w.low
			}
		} else if len(ready) > 1 {
			w.order(ready)
			idx = w.Choose(KSched, len(ready), func() string {
				s := ""
				for _, g := range ready {
					s += " " + g.String()
				}
				return "sched" + s
			})
		}
		g := ready[idx]
		if w.Trace != nil {
			w.Trace(fmt.Sprintf("%s  t=%v", g.String(), time.Since(w.start)))
		}
		w.resume(g)
	}
}

func (w *World) orderPrio(ready []*G) {
	key := func(g *G) int {
		if g.prio > 0 {
			return 1<<30 + g.prio
		}
		if w.PrioNew && g.Proc != w.Env {
			return -g.ID
		}
		return g.ID
	}
	sort.Slice(ready, func(i, j int) bool { return key(ready[i]) < key(ready[j]) })
}

// order puts the default choice first: the goroutine that ran last, then the
// others in cyclic order of their ids.
func (w *World) order(ready []*G) {
	c := 0
	if w.cur != nil {
		c = w.cur.ID
	}
	key := func(g *G) int {
		if g.ID >= c {
			return g.ID - c
		}
		return g.ID - c + 1<<30
	}
	sort.Slice(ready, func(i, j int) bool { return key(ready[i]) < key(ready[j]) })
}

func (g *G) String() string { return fmt.Sprintf("%s/%s#%d@%s", g.Proc.Name, g.Name, g.ID, g.what) }

func (w *World) dump() string {
	s := ""
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, g := range w.gs {
		st := "parked"
		if g.state == stBlocked {
			st = "blocked"
		} else if g.state == stRunning {
			st = "running?"
		}
		s += fmt.Sprintf("%s %s; ", g, st)
	}
	return s
}

// enter returns the running goroutine, unwinding it if its process is dead.
// Race detection is off on return when it returns non-nil.
func enter() *G {
	w := W
	if w == nil {
		return nil
	}
	g := w.cur
	if g == nil {
		return nil
	}
	if g.gp != getg() {
		w.Internal = "uncontrolled goroutine: " + string(debug.Stack())
		return nil
	}
	if g.Proc.kill {
		runtime.Goexit()
	}
	raceOff()
	return g
}

// Point is a visible operation of category cat.
func Point(cat int, what string) {
	w := W
	if w == nil {
		return
	}
	g := enter()
	if g == nil {
		return
	}
	if w.Mask&cat != 0 {
		w.park(g, what, nil)
	}
	raceOn()
}

// P is a point used before atomic statements.
func P() { Point(CatSync, "atomic") }

// V is a point used after atomic expressions.
func V[T any](v T) T { Point(CatSync, "atomic"); return v }

// Gosched replaces runtime.Gosched.
func Gosched() { Point(CatAll, "gosched") }

// WaitFor blocks until cond holds (evaluated by the controller).
func WaitFor(cat int, what string, cond func() bool) {
	w := W
	if w == nil {
		if !cond() {
			panic("deadlock: " + what)
		}
		return
	}
	g := enter()
	if g == nil {
		return
	}
	if w.Mask&cat != 0 || !cond() {
		w.park(g, what, cond)
	}
	raceOn()
}

// Go starts f as a controlled goroutine of the current process.
func Go(f func()) {
	w := W
	if w == nil {
		go f()
		return
	}
	g := enter()
	if g == nil {
		return
	}
	n := w.newG("g", g.Proc)
	w.spawn(n, f)
	raceOn()
}

// GoIn starts f as a goroutine of process p.
func GoIn(p *Proc, name string, f func()) *G {
	w := W
	g := enter()
	if g == nil {
		panic("GoIn outside of a world")
	}
	n := w.newG(name, p)
	w.spawn(n, f)
	raceOn()
	return n
}

// Done reports whether g has finished.
func (g *G) Done() bool { return g.state == stDone }

// Join waits for all gs.
func Join(gs ...*G) {
	WaitFor(0, "join", func() bool {
		for _, g := range gs {
			if g.state != stDone {
				return false
			}
		}
		return true
	})
}

// Kill ends process p at once: none of its goroutines executes another visible
// operation.  It returns when all have unwound.
func Kill(p *Proc) {
	w := W
	g := enter()
	w.markKilled(p)
	w.park(g, "kill", func() bool { return p.live == 0 })
	raceOn()
}

// ExitProc ends the current process (os.Exit).
func ExitProc(code int) {
	g := enter()
	if g == nil {
		panic(fmt.Sprint("exit ", code))
	}
	g.Proc.Exited = true
	g.Proc.ExitCode = code
	W.markKilled(g.Proc)
	raceOn()
	runtime.Goexit()
}

// Exited waits until p has no goroutines.
func WaitExit(p *Proc) { WaitFor(0, "waitexit", func() bool { return p.live == 0 }) }

// Live returns the number of live goroutines of p.
func (p *Proc) Live() int { return p.live }

func (w *World) setBlocked(g *G, what string) {
	w.mu.Lock()
	g.state = stBlocked
	g.what = what
	w.mu.Unlock()
}

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	w := W
	if w == nil {
		return
	}
	g := enter()
	if g == nil {
		return
	}
	if d > 0 {
		w.setBlocked(g, "sleep")
		t := time.NewTimer(d)
		select {
		case <-t.C:
		case <-g.Proc.dead:
			t.Stop()
		}
	}
	w.park(g, "slept", nil)
	raceOn()
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	w := W
	if w == nil {
		return time.AfterFunc(d, f)
	}
	g := enter()
	p := g.Proc
	w.mu.Lock()
	id := w.nextID
	w.nextID++
	w.mu.Unlock()
	raceOn()
	return time.AfterFunc(d, func() {
		raceOff()
		if w.tearing || p.kill || W != w {
			raceOn()
			return
		}
		n := &G{ID: id, Name: "timer", Proc: p, wake: make(chan struct{})}
		w.mu.Lock()
		p.live++
		w.gs = append(w.gs, n)
		w.mu.Unlock()
		raceOn()
		w.spawn2(n, f)
	})
}

func (w *World) spawn2(g *G, f func()) {
	raceOff()
	w.spawn(g, f)
	raceOn()
}

// Since returns the virtual time since the start of the world.
func (w *World) Since() time.Duration { return time.Since(w.start) }

// Choose asks the explorer for an environment choice.
func Choose(kind Kind, n int, label string) int {
	w := W
	if w == nil {
		panic("Choose outside of a world")
	}
	if n <= 1 {
		return 0
	}
	c := w.Choose(kind, n, func() string { return label })
	if w.Trace != nil {
		w.Trace(fmt.Sprintf("    choice %s = %d/%d", label, c, n))
	}
	return c
}

// Tracef adds a line to the trace of a replay.
func Tracef(f string, a ...interface{}) {
	if W != nil && W.Trace != nil {
		W.Trace("    " + fmt.Sprintf(f, a...))
	}
}
