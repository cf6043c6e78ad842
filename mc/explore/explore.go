// Package explore enumerates the executions of scenarios exhaustively within
// bounds on the number of scheduling deviations and environment faults.
//
// An execution is determined by its choices.  The engine re-runs the scenario
// with a prefix of prescribed choices (all others take alternative 0), and
// branches at every later choice point.  A prefix is stored sparsely as the
// list of its non-zero choices.
package explore

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"vmc/vos"
	"vmc/vsched"
)

// Bounds limits the non-default choices of an execution.
type Bounds struct {
	Sched int // scheduling deviations
	Fault int // environment faults
	Total int // both together
}

// Scenario is a closed system: code under test plus driver plus oracle.
type Scenario struct {
	Name   string
	Doc    string
	Run    func(x *X)
	Quick  Bounds
	Deep   Bounds // thorough
	Weight int    // share of the time budget (default 1)
	Mask   int    // scheduling point categories
	Race   bool   // run under the race detector
	// Thorough scenarios run in the thorough tier only.
	Thorough bool
	MaxStep  int
	Horizon  time.Duration
	NoPrio   bool // register no priority scheduling variant
	Prio     bool // priority scheduling (see vsched.World)
}

// Dev is a non-default choice.
type Dev struct {
	Pos int `json:"p"`
	Alt int `json:"a"`
}

// Node is a prefix.
type Node struct {
	Devs []Dev  `json:"d"`
	Hash uint64 `json:"h"` // of the choice points up to the last deviation
}

type point struct {
	kind vsched.Kind
	n    int
}

// X is one execution.
type X struct {
	Sc      *Scenario
	Deep    bool // thorough tier
	prefix  Node
	next    int
	points  []point
	hash    uint64
	hashes  []uint64
	cutHash uint64
	Diverge bool
	freeze  bool

	W       *vsched.World
	Fails   []Fail
	outcome []string
	steps   int
	trace   []string
	tracing bool
	vals    map[string]interface{}
	aborted bool
	// AllowStuck etc. suppress the default failure for executions that end
	// without completing.
	Notes []string
}

// Fail is a violation.
type Fail struct {
	Key string // stable signature
	Msg string
}

// Failf records a violation; key identifies what fails.
func (x *X) Failf(key, f string, a ...interface{}) {
	for _, e := range x.Fails {
		if e.Key == key {
			return
		}
	}
	x.Fails = append(x.Fails, Fail{key, fmt.Sprintf(f, a...)})
	x.Tracef("VIOLATION %s: %s", key, fmt.Sprintf(f, a...))
}

// Failed reports whether a violation was recorded.
func (x *X) Failed() bool { return len(x.Fails) > 0 }

// Outcome adds to the observable outcome of the execution.
func (x *X) Outcome(f string, a ...interface{}) {
	x.outcome = append(x.outcome, fmt.Sprintf(f, a...))
}

// Tracef adds a line to the trace.
func (x *X) Tracef(f string, a ...interface{}) {
	if x.tracing {
		x.trace = append(x.trace, fmt.Sprintf(f, a...))
	}
}

// Tracing reports whether a trace is being recorded.
func (x *X) Tracing() bool { return x.tracing }

// Step counts a transition of a sequential scenario.
func (x *X) Step() { x.steps++ }

// Free is a choice whose alternatives are all explored.
func (x *X) Free(n int, label string) int { return x.choose(vsched.KFree, n, label) }

// Flag is a free boolean choice.
func (x *X) Flag(label string) bool { return x.Free(2, label) == 1 }

// Fault is a choice whose non-zero alternatives cost one fault.
func (x *X) Fault(n int, label string) int { return x.choose(vsched.KFault, n, label) }

// Freeze makes all further choices take alternative 0 without branching.
func (x *X) Freeze(b bool) { x.freeze = b }

func (x *X) choose(k vsched.Kind, n int, label string) int {
	c := x.choosePoint(k, n)
	if x.tracing {
		x.Tracef("    choice %s = %d of %d", label, c, n)
	}
	return c
}

func (x *X) choosePoint(k vsched.Kind, n int) int {
	if n <= 1 || x.freeze {
		return 0
	}
	pos := len(x.points)
	c := 0
	if x.next < len(x.prefix.Devs) && x.prefix.Devs[x.next].Pos == pos {
		c = x.prefix.Devs[x.next].Alt
		x.next++
		if c >= n {
			x.Diverge = true
			c = 0
		}
		if x.next == len(x.prefix.Devs) && x.prefix.Hash != 0 && x.prefix.Hash != mix(x.hash, k, n) {
			x.Diverge = true
		}
	}
	x.hash = mix(x.hash, k, n)
	x.points = append(x.points, point{k, n})
	x.hashes = append(x.hashes, x.hash)
	return c
}

func mix(h uint64, k vsched.Kind, n int) uint64 {
	h ^= uint64(k)<<32 | uint64(n)
	h *= 1099511628211
	h ^= h >> 29
	return h | 1
}

// World runs main as the main goroutine of a controlled world.
func (x *X) World(main func()) *vsched.World {
	w := &vsched.World{
		Mask: x.Sc.Mask, MaxStep: x.Sc.MaxStep, Horizon: x.Sc.Horizon,
	}
	return x.RunWorld(w, main)
}

// RunWorld runs main in w.
func (x *X) RunWorld(w *vsched.World, main func()) *vsched.World {
	if x.Sc.Prio {
		w.Prio = true
		w.PrioNew = x.Flag("newest goroutine first")
	}
	w.Choose = func(k vsched.Kind, n int, label func() string) int {
		c := x.choosePoint(k, n)
		if x.tracing && n > 1 && !x.freeze && c != 0 {
			x.Tracef("    choice %s = %d of %d", label(), c, n)
		}
		return c
	}
	if x.tracing {
		w.Trace = func(s string) { x.trace = append(x.trace, s) }
	}
	x.W = w
	w.Run(main)
	x.steps += w.Steps
	if w.Internal != "" {
		x.Notes = append(x.Notes, "internal: "+w.Internal)
		x.Diverge = true
	}
	for _, p := range w.Panics {
		x.Failf("panic", "process %s: goroutine %s panicked: %s\n%s", p.Proc, p.G, p.Value, trimStack(p.Stack))
	}
	if w.Stuck {
		x.Failf("hang", "nothing can make progress any more (deadlock): %s", w.Dump)
	}
	if w.StepOver {
		x.Failf("livelock", "still running after %d steps: %s", w.Steps, w.Dump)
	}
	return w
}

func trimStack(s string) string {
	var l []string
	for _, line := range strings.Split(s, "\n") {
		if strings.Contains(line, "aptutil/") {
			l = append(l, strings.TrimSpace(line))
		}
	}
	if len(l) > 12 {
		l = l[:12]
	}
	return strings.Join(l, "\n")
}

// Exec runs one execution of sc with the given prefix.
func Exec(sc *Scenario, deep bool, n Node, tracing bool) *X {
	x := &X{Sc: sc, Deep: deep, prefix: n, tracing: tracing, hash: 14695981039346656037, vals: map[string]interface{}{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				x.Failf("panic", "panic: %v\n%s", e, trimStack(string(debug.Stack())))
			}
		}()
		vos.Cur = vos.NewFS()
		sc.Run(x)
	}()
	if x.next < len(x.prefix.Devs) {
		x.Diverge = true
	}
	return x
}

// children returns the prefixes that branch off x after its own prefix.
func (x *X) children(b Bounds) []Node {
	start := 0
	var s, f int
	if k := len(x.prefix.Devs); k > 0 {
		start = x.prefix.Devs[k-1].Pos + 1
		for _, d := range x.prefix.Devs {
			switch x.points[d.Pos].kind {
			case vsched.KSched:
				s++
			case vsched.KFault:
				f++
			}
		}
	}
	var r []Node
	for i := start; i < len(x.points); i++ {
		p := x.points[i]
		switch p.kind {
		case vsched.KSched:
			if s+1 > b.Sched || s+f+1 > b.Total {
				continue
			}
		case vsched.KFault:
			if f+1 > b.Fault || s+f+1 > b.Total {
				continue
			}
		}
		for a := 1; a < p.n; a++ {
			d := make([]Dev, len(x.prefix.Devs)+1)
			copy(d, x.prefix.Devs)
			d[len(d)-1] = Dev{i, a}
			r = append(r, Node{d, x.hashes[i]})
		}
	}
	return r
}

// Result accumulates what a search covered.
type Result struct {
	Execs      int
	States     int // choice tree nodes reached for the first time
	Steps      int // transitions executed
	Diverged   int
	Outcomes   map[string]int
	Samples    []string
	Violations []Violation
	Left       []Node // not explored yet
	Notes      []string
	MaxPoints  int
}

// Violation is a failing execution.
type Violation struct {
	Scenario string
	Node     Node
	Key      string
	Msg      string
}

func (r *Result) merge(o *Result) {
	r.Execs += o.Execs
	r.States += o.States
	r.Steps += o.Steps
	r.Diverged += o.Diverged
	if o.MaxPoints > r.MaxPoints {
		r.MaxPoints = o.MaxPoints
	}
	if r.Outcomes == nil {
		r.Outcomes = map[string]int{}
	}
	for k, v := range o.Outcomes {
		if len(r.Outcomes) < 5000 || r.Outcomes[k] > 0 {
			r.Outcomes[k] += v
		}
	}
	for _, s := range o.Samples {
		if len(r.Samples) < 4 {
			r.Samples = append(r.Samples, s)
		}
	}
	r.Violations = append(r.Violations, o.Violations...)
	for _, n := range o.Notes {
		if len(r.Notes) < 5 {
			r.Notes = append(r.Notes, n)
		}
	}
}

func outcomeKey(l []string) string {
	s := strings.Join(l, "; ")
	if len(s) > 300 {
		h := fnv.New64a()
		h.Write([]byte(s))
		s = s[:280] + fmt.Sprintf("...#%x", h.Sum64())
	}
	return s
}

// Search explores the subtrees of nodes depth first for at most maxExecs
// executions or until the deadline; what is left is returned in Left.
func Search(sc *Scenario, deep bool, b Bounds, nodes []Node, maxExecs int, deadline time.Time, beat func(n *Node)) *Result {
	r := &Result{Outcomes: map[string]int{}}
	stack := append([]Node(nil), nodes...)
	for len(stack) > 0 {
		if r.Execs >= maxExecs || (r.Execs&15 == 0 && time.Now().After(deadline)) {
			break
		}
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		beat(&n)
		x := Exec(sc, deep, n, false)
		r.Execs++
		from := 0
		if k := len(n.Devs); k > 0 {
			from = n.Devs[k-1].Pos
		}
		if len(x.points) > from {
			r.States += len(x.points) - from
		}
		r.States++
		r.Steps += x.steps
		if len(x.points) > r.MaxPoints {
			r.MaxPoints = len(x.points)
		}
		if x.Diverge {
			r.Diverged++
			for _, s := range x.Notes {
				if len(r.Notes) < 3 {
					r.Notes = append(r.Notes, s)
				}
			}
			if len(r.Notes) == 0 {
				r.Notes = append(r.Notes, fmt.Sprintf("diverged: scenario %s devs %v", sc.Name, n.Devs))
			}
			continue
		}
		k := outcomeKey(x.outcome)
		if len(r.Outcomes) < 2000 || r.Outcomes[k] > 0 {
			r.Outcomes[k]++
		}
		if len(r.Samples) < 2 && (r.Execs == 1 || len(n.Devs) > 1) {
			r.Samples = append(r.Samples, fmt.Sprintf("%s devs=%v points=%d steps=%d outcome: %s", sc.Name, n.Devs, len(x.points), x.steps, k))
		}
		if x.Failed() {
			for _, f := range x.Fails {
				r.Violations = append(r.Violations, Violation{sc.Name, n, f.Key, f.Msg})
			}
			if len(r.Violations) >= 20 {
				break
			}
			continue
		}
		ch := x.children(b)
		// explore the earliest branches first
		for i := len(ch) - 1; i >= 0; i-- {
			stack = append(stack, ch[i])
		}
	}
	r.Left = stack
	return r
}

// TopOutcomes renders the most frequent outcomes.
func (r *Result) TopOutcomes(n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range r.Outcomes {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].v != l[j].v {
			return l[i].v > l[j].v
		}
		return l[i].k < l[j].k
	})
	var s []string
	for i, e := range l {
		if i >= n {
			break
		}
		s = append(s, fmt.Sprintf("%dx %s", e.v, e.k))
	}
	return s
}

// Trace returns the recorded trace.
func (x *X) Trace() []string { return x.trace }
