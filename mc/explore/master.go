package explore

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Property groups the scenarios that decide one property.
type Property struct {
	ID        string
	Level     string
	Scenarios []*Scenario
	Assume    []string
}

type task struct {
	Scenario int
	Deep     bool
	Bounds   Bounds
	Nodes    []Node
	MaxExecs int
	MaxMs    int64
	Trace    bool // run the single node once with tracing
}

type reply struct {
	Result *Result
	Fails  []Fail
	Trace  []string
	Hung   bool
	Crash  string
}

// Worker serves tasks on stdin/stdout.
func Worker(p *Property) {
	runtime.GOMAXPROCS(1)
	if d := os.Getenv("MC_PROF"); d != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%d", d, os.Getpid()))
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := json.NewEncoder(os.Stdout)
	var mu sync.Mutex
	var cur *Node
	var since time.Time
	limit := 60 * time.Second
	if s := os.Getenv("MC_HANG_S"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	var scName string
	go func() {
		for {
			time.Sleep(time.Second)
			mu.Lock()
			if cur != nil && time.Since(since) > limit {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				r := reply{Hung: true, Result: &Result{Violations: []Violation{{scName, *cur, "busy-loop",
					fmt.Sprintf("an execution ran for more than %v of real time without reaching a scheduling point\n%s", limit, trimStack(string(buf)))}}}}
				out.Encode(&r)
				os.Exit(3)
			}
			mu.Unlock()
		}
	}()
	for {
		var t task
		if err := in.Decode(&t); err != nil {
			return
		}
		sc := p.Scenarios[t.Scenario]
		if t.Trace {
			mu.Lock()
			cur, since, scName = &t.Nodes[0], time.Now(), sc.Name
			mu.Unlock()
			x := Exec(sc, t.Deep, t.Nodes[0], true)
			mu.Lock()
			cur = nil
			mu.Unlock()
			fails := append(x.Fails, raceFails()...)
			if x.Diverge {
				fails = nil
			}
			out.Encode(&reply{Fails: fails, Trace: x.Trace()})
			continue
		}
		res := Search(sc, t.Deep, t.Bounds, t.Nodes, t.MaxExecs, time.Now().Add(time.Duration(t.MaxMs)*time.Millisecond), func(n *Node) {
			mu.Lock()
			cur, since, scName = n, time.Now(), sc.Name
			mu.Unlock()
		})
		mu.Lock()
		cur = nil
		mu.Unlock()
		for _, f := range raceFails() {
			n := Node{}
			if len(t.Nodes) > 0 {
				n = t.Nodes[0]
			}
			res.Violations = append(res.Violations, Violation{sc.Name, n, f.Key, f.Msg})
		}
		out.Encode(&reply{Result: res})
	}
}

// raceFails reads the race detector's log of this process.
func raceFails() []Fail {
	lp := os.Getenv("MC_RACE_LOG")
	if lp == "" {
		return nil
	}
	b, err := os.ReadFile(lp + "." + strconv.Itoa(os.Getpid()))
	if err != nil {
		return nil
	}
	var r []Fail
	seen := map[string]bool{}
	for _, rep := range strings.Split(string(b), "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		key, ok := raceKey(rep)
		if !ok || seen[key] {
			continue
		}
		seen[key] = true
		r = append(r, Fail{key, "data race:\n" + strings.TrimSpace(rep)})
	}
	return r
}

var frameRe = regexp.MustCompile(`^  (\S.*)\(\)$`)

// raceKey decides whether both accesses of a report are made by the code under
// test; the machinery's own accesses are not subject to the check.
func raceKey(rep string) (string, bool) {
	var frames []string
	in := false
	found := false
	for _, line := range strings.Split(rep, "\n") {
		if strings.HasPrefix(line, "Read at") || strings.HasPrefix(line, "Write at") ||
			strings.HasPrefix(line, "Previous read at") || strings.HasPrefix(line, "Previous write at") {
			in, found = true, false
			continue
		}
		if strings.HasPrefix(line, "Goroutine") {
			in = false
		}
		if !in || found {
			continue
		}
		m := frameRe.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		if strings.HasPrefix(m[1], "github.com/cybozu-go/aptutil") || strings.HasPrefix(m[1], "vmc/") {
			frames = append(frames, m[1])
			found = true
		}
	}
	if len(frames) != 2 {
		return "", false
	}
	for _, f := range frames {
		if !strings.HasPrefix(f, "github.com/cybozu-go/aptutil") {
			return "", false
		}
	}
	sort.Strings(frames)
	return "race:" + frames[0] + "|" + frames[1], true
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
}

func startWorker(bin string, id string, env []string) (*worker, error) {
	c := exec.Command(bin, "worker", id)
	c.Env = append(os.Environ(), env...)
	c.Stderr = os.Stderr
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &worker{c, in, json.NewEncoder(in), json.NewDecoder(bufio.NewReaderSize(out, 1<<20))}, nil
}

func (w *worker) stop() {
	w.in.Close()
	if os.Getenv("MC_PROF") == "" {
		w.cmd.Process.Kill()
	}
	w.cmd.Wait()
}

// Master runs the check of p and returns the exit code.
type Master struct {
	P        *Property
	Bin      string
	RaceBin  string
	Tier     string
	Seed     int
	Budget   time.Duration
	Out      string // verif directory
	Workers  int
	Only     string
	Verbose  bool
	workDir  string
	findings []finding
}

type finding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
}

type scReport struct {
	Scenario    string   `json:"scenario"`
	Doc         string   `json:"doc,omitempty"`
	Bounds      string   `json:"bounds"`
	Completed   string   `json:"completed"`
	Exhaustive  bool     `json:"exhaustive_within_bounds"`
	Executions  int      `json:"executions"`
	States      int      `json:"states"`
	Transitions int      `json:"transitions"`
	Outcomes    int      `json:"distinct_outcomes"`
	TopOutcomes []string `json:"top_outcomes"`
	MaxPoints   int      `json:"max_choice_points"`
	Diverged    int      `json:"diverged,omitempty"`
	WallS       float64  `json:"wall_s"`
}

func (b Bounds) String() string {
	return fmt.Sprintf("sched<=%d fault<=%d total<=%d", b.Sched, b.Fault, b.Total)
}

func (b Bounds) at(l int) Bounds {
	c := b
	c.Total = l
	return c
}

// Run runs everything.
func (m *Master) Run() int {
	start := time.Now()
	if m.Workers == 0 {
		m.Workers = runtime.NumCPU()
	}
	m.loadFindings()
	deep := m.Tier == "thorough"
	total := 0
	for _, sc := range m.P.Scenarios {
		if m.skip(sc, deep) {
			continue
		}
		if sc.Weight == 0 {
			sc.Weight = 1
		}
		total += sc.Weight
	}
	all := &Result{Outcomes: map[string]int{}}
	var reps []scReport
	exhaustive := true
	var viol []Violation
	rest := total
	for i, sc := range m.P.Scenarios {
		if m.skip(sc, deep) {
			continue
		}
		left := m.Budget - time.Since(start)
		if left < 0 {
			left = 0
		}
		share := left * time.Duration(sc.Weight) / time.Duration(rest)
		rest -= sc.Weight
		t0 := time.Now()
		b := sc.Quick
		if deep {
			b = sc.Deep
			if b == (Bounds{}) {
				b = sc.Quick
			}
		}
		r, done := m.search(i, sc, deep, b, t0.Add(share))
		rep := scReport{Scenario: sc.Name, Doc: sc.Doc, Bounds: b.String(), Executions: r.Execs, States: r.States,
			Transitions: r.Steps, Outcomes: len(r.Outcomes), TopOutcomes: r.TopOutcomes(6), MaxPoints: r.MaxPoints, Diverged: r.Diverged,
			WallS: time.Since(t0).Seconds()}
		if done == b.Total {
			rep.Completed = b.String()
			rep.Exhaustive = r.Diverged == 0 && len(r.Violations) == 0
		} else if done >= 0 {
			rep.Completed = b.at(done).String()
		} else {
			rep.Completed = "none"
		}
		if !rep.Exhaustive {
			exhaustive = false
		}
		reps = append(reps, rep)
		if m.Verbose {
			j, _ := json.MarshalIndent(rep, "", " ")
			fmt.Fprintln(os.Stderr, string(j))
		}
		for _, n := range r.Notes {
			fmt.Fprintln(os.Stderr, "note:", n)
		}
		viol = append(viol, r.Violations...)
		all.merge(r)
		if len(m.unlisted(viol)) > 0 {
			break
		}
	}
	code := m.report(viol, deep)
	m.evidence(all, reps, exhaustive, code, time.Since(start), viol)
	return code
}

func (m *Master) skip(sc *Scenario, deep bool) bool {
	if m.Only != "" && !strings.Contains(sc.Name, m.Only) {
		return true
	}
	return sc.Thorough && !deep
}

// search explores sc with increasing total bound; it returns the last bound
// that was completed (-1: none).
func (m *Master) search(idx int, sc *Scenario, deep bool, b Bounds, deadline time.Time) (*Result, int) {
	bin, env := m.Bin, []string(nil)
	if sc.Race {
		bin = m.RaceBin
		lp := filepath.Join(m.workDir, "race"+strconv.Itoa(idx))
		env = []string{"GORACE=log_path=" + lp + " halt_on_error=0 exitcode=0 history_size=4", "MC_RACE_LOG=" + lp}
	}
	var ws []*worker
	defer func() {
		for _, w := range ws {
			if w != nil {
				w.stop()
			}
		}
	}()
	for i := 0; i < m.Workers; i++ {
		w, err := startWorker(bin, m.P.ID, env)
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(2)
		}
		ws = append(ws, w)
	}
	var last *Result
	done := -1
	for l := 0; l <= b.Total; l++ {
		r, complete := m.pass(ws, bin, env, idx, deep, b.at(l), deadline)
		if last != nil && !complete && len(r.Violations) == 0 && r.Execs < last.Execs {
			// the deeper pass did not even get as far: keep the better numbers
			last.Notes = append(last.Notes, r.Notes...)
		} else {
			last = r
		}
		if len(r.Violations) > 0 {
			last = r
			break
		}
		if !complete {
			break
		}
		done = l
	}
	return last, done
}

func (m *Master) pass(ws []*worker, bin string, env []string, idx int, deep bool, b Bounds, deadline time.Time) (*Result, bool) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []Node{{}}
	busy := 0
	stop := false
	res := &Result{Outcomes: map[string]int{}}
	var wg sync.WaitGroup
	for wi := range ws {
		wi := wi
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 && !stop {
					cond.Wait()
				}
				if stop || len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if time.Now().After(deadline) {
					stop = true
					mu.Unlock()
					cond.Broadcast()
					return
				}
				// take a share of the queue, at least one node
				k := len(queue) / (2 * len(ws))
				if k < 1 {
					k = 1
				}
				if k > 256 {
					k = 256
				}
				nodes := append([]Node(nil), queue[len(queue)-k:]...)
				queue = queue[:len(queue)-k]
				budget := 400
				if len(queue) < len(ws)*4 {
					budget = 20 // spread the work first
				}
				busy++
				mu.Unlock()
				var rep reply
				ms := time.Until(deadline).Milliseconds() + 10
				err := ws[wi].enc.Encode(&task{Scenario: idx, Deep: deep, Bounds: b, Nodes: nodes, MaxExecs: budget, MaxMs: ms})
				if err == nil {
					err = ws[wi].dec.Decode(&rep)
				}
				mu.Lock()
				busy--
				if err != nil {
					st := ""
					ws[wi].cmd.Wait()
					if ws[wi].cmd.ProcessState != nil {
						st = ws[wi].cmd.ProcessState.String()
					}
					res.Notes = append(res.Notes, fmt.Sprintf("worker died (%v, %s) on nodes %v", err, st, nodes[0]))
					res.Diverged++
					stop = true
					mu.Unlock()
					cond.Broadcast()
					ws[wi] = nil
					nw, e := startWorker(bin, m.P.ID, env)
					if e == nil {
						ws[wi] = nw
					}
					return
				}
				res.merge(rep.Result)
				queue = append(queue, rep.Result.Left...)
				if len(res.Violations) > 0 {
					stop = true
				}
				if rep.Hung {
					stop = true
					ws[wi].cmd.Wait()
					nw, e := startWorker(bin, m.P.ID, env)
					if e == nil {
						ws[wi] = nw
					}
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	return res, !stop && len(queue) == 0
}

func (m *Master) loadFindings() {
	b, err := os.ReadFile(filepath.Join(m.Out, "known_findings.json"))
	if err != nil {
		return
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	m.findings = f.Findings
}

func (m *Master) known(v Violation) *finding {
	for i := range m.findings {
		f := &m.findings[i]
		if f.Status == "open" && f.Property == m.P.ID && f.Scenario == v.Scenario && f.Key == v.Key {
			return f
		}
	}
	return nil
}

func (m *Master) unlisted(vs []Violation) (r []Violation) {
	for _, v := range vs {
		if m.known(v) == nil {
			r = append(r, v)
		}
	}
	return
}

// Replay is the file format of a counterexample.
type Replay struct {
	Property string
	Scenario string
	Tier     string
	Node     Node
	Key      string
	Msg      string
	Trace    []string
	HowTo    string
}

func (m *Master) once(v Violation, deep bool) *reply {
	idx := -1
	for i, sc := range m.P.Scenarios {
		if sc.Name == v.Scenario {
			idx = i
		}
	}
	sc := m.P.Scenarios[idx]
	bin, env := m.Bin, []string(nil)
	if sc.Race {
		bin = m.RaceBin
		lp := filepath.Join(m.workDir, fmt.Sprintf("again%d", time.Now().UnixNano()))
		env = []string{"GORACE=log_path=" + lp + " halt_on_error=0 exitcode=0 history_size=4", "MC_RACE_LOG=" + lp}
	}
	w, err := startWorker(bin, m.P.ID, env)
	if err != nil {
		return nil
	}
	defer w.stop()
	var rep reply
	if err := w.enc.Encode(&task{Scenario: idx, Deep: deep, Nodes: []Node{v.Node}, Trace: true}); err != nil {
		return nil
	}
	if err := w.dec.Decode(&rep); err != nil {
		return nil
	}
	if rep.Hung {
		for _, vv := range rep.Result.Violations {
			rep.Fails = append(rep.Fails, Fail{vv.Key, vv.Msg})
		}
	}
	return &rep
}

// report confirms and prints violations.
func (m *Master) report(viol []Violation, deep bool) int {
	code := 0
	seen := map[string]bool{}
	sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].Node.Devs) < len(viol[j].Node.Devs) })
	printed := map[string]bool{}
	for _, v := range viol {
		id := v.Scenario + "/" + v.Key
		if seen[id] || len(seen) > 8 {
			continue
		}
		seen[id] = true
		if f := m.known(v); f != nil {
			if !printed[f.Key+f.Scenario] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", m.P.ID, f.What)
				printed[f.Key+f.Scenario] = true
			}
			continue
		}
		var rep *reply
		n := 5
		if v.Key == "busy-loop" {
			n = 1
		}
		ok := 0
		for i := 0; i < n; i++ {
			r := m.once(v, deep)
			if r == nil {
				continue
			}
			for _, f := range r.Fails {
				if f.Key == v.Key {
					ok++
					rep = r
					v.Msg = f.Msg
					break
				}
			}
		}
		race := strings.HasPrefix(v.Key, "race:")
		if ok < n && !race {
			fmt.Fprintf(os.Stderr, "note: violation %s in %s reproduced only %d/%d times; not reported: %s\n", v.Key, v.Scenario, ok, n, v.Msg)
			if len(os.Getenv("MC_SHOW")) > 0 {
				fmt.Fprintln(os.Stderr, v.Node)
			}
			continue
		}
		rp := Replay{Property: m.P.ID, Scenario: v.Scenario, Tier: m.Tier, Node: v.Node, Key: v.Key, Msg: v.Msg,
			HowTo: "./check " + m.P.ID + " replay <this file>"}
		if rep != nil {
			rp.Trace = rep.Trace
		}
		name := filepath.Join(m.Out, "evidence", "replays", fmt.Sprintf("%s-%s-%s.json", m.P.ID, v.Scenario, san(v.Key)))
		os.MkdirAll(filepath.Dir(name), 0755)
		b, _ := json.MarshalIndent(&rp, "", " ")
		os.WriteFile(name, b, 0644)
		msg := v.Msg
		if len(msg) > 3000 {
			msg = msg[:3000] + "..."
		}
		fmt.Printf("scenario %s, choices %v:\n%s: %s\n", v.Scenario, v.Node.Devs, v.Key, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", m.P.ID, name)
		code = 1
	}
	return code
}

func san(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-') {
			b[i] = '_'
		}
	}
	if len(b) > 60 {
		b = b[:60]
	}
	return string(b)
}

func (m *Master) evidence(all *Result, reps []scReport, exhaustive bool, code int, wall time.Duration, viol []Violation) {
	samples := all.Samples
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	cov := map[string]interface{}{
		"states":                        all.States,
		"transitions":                   all.Steps,
		"traces_validated_against_impl": all.Execs,
		"how": "stateless: states are the nodes of the choice tree (a state is reached by one sequence of choices), transitions the steps executed; " +
			"every trace is an execution of the real code under a distinct choice sequence (schedule, fault, crash image, input)",
		"distinct_outcomes": len(all.Outcomes),
		"samples":    samples,
		"exhaustive": exhaustive,
		"scenarios":  reps,
	}
	ev := map[string]interface{}{
		"property":    m.P.ID,
		"tier":        m.Tier,
		"seed":        m.Seed,
		"level":       m.P.Level,
		"coverage":    cov,
		"assumptions": m.P.Assume,
		"wall_s":      wall.Seconds(),
		"violations":  len(m.unlisted(viol)),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(m.Out, "evidence"), 0755)
	os.WriteFile(filepath.Join(m.Out, "evidence", m.P.ID+".json"), b, 0644)
	tag := "exhaustive within bounds"
	if !exhaustive {
		tag = "not exhaustive"
	}
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, %d outcomes, %s, %.1fs\n", m.P.ID, m.Tier, all.Execs, all.States, all.Steps, len(all.Outcomes), tag, wall.Seconds())
}

// SetWorkDir sets the scratch directory.
func (m *Master) SetWorkDir(d string) { m.workDir = d }

// ReplayFile re-executes a counterexample and prints its trace.
func (m *Master) ReplayFile(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rep := m.once(Violation{Scenario: rp.Scenario, Node: rp.Node, Key: rp.Key}, rp.Tier == "thorough")
	if rep == nil {
		fmt.Println("the worker died")
		return 2
	}
	for _, l := range rep.Trace {
		fmt.Println(l)
	}
	for _, f := range rep.Fails {
		fmt.Printf("FAILED %s: %s\n", f.Key, f.Msg)
	}
	if len(rep.Fails) > 0 {
		return 1
	}
	fmt.Println("no violation")
	return 0
}
