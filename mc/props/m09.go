package props

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
	"vmc/vwell"
)

func init() {
	register("M09", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "faults", Doc: "max_conns 0..3, any two (three) files answered with transient or permanent failures; open connections are counted at every request",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: m09faults,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "the same under every interleaving within the bound, one failing file",
			Quick: explore.Bounds{Sched: 1, Fault: 1, Total: 2}, Deep: explore.Bounds{Sched: 2, Fault: 1, Total: 3}, Mask: netMask, Weight: 3, Run: m09schedule,
		},
		&explore.Scenario{
			Name: "slots", Doc: "after any two failures all slots are used again: with slow answers and work left, max_conns requests are in flight together",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Run: m09slots,
		},
		&explore.Scenario{
			Name: "local", Doc: "any one (two) failing file system operations with max_conns 1 and 2: the limit holds and the run ends",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Run: m09local,
		},
	)
	register("M11", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "transient", Doc: "every sequence of up to five connection errors, 503 answers and broken transfers on every file of the repository, then success: the update succeeds",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: m11transient,
		},
		&explore.Scenario{
			Name: "statuses", Doc: "every status from 500 to 599 once and five times on every file of the repository: the update succeeds",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: m11statuses,
		},
		&explore.Scenario{
			Name: "mixed", Doc: "every sequence of up to six answers out of connection error, 503, broken transfer, wrong content, missing, forbidden, 500, huge delay on a canonical name and its by-hash names: the run ends with few requests",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: m11mixed,
		},
		&explore.Scenario{
			Name: "many", Doc: "any two (three) files failing transiently or for ever, max_conns 1 and 2: the run ends, and succeeds if all failures were transient",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: m11many,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "one failing file or failing system call and an optional cancellation under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Fault: 1, Total: 2}, Deep: explore.Bounds{Sched: 2, Fault: 2, Total: 3}, Mask: netMask, Weight: 3, Run: m11schedule,
		},
		&explore.Scenario{
			Name: "cancel", Doc: "SIGTERM at any operation and at every half second of a run with slow, hanging and failing files: the run ends within 20 virtual seconds (the longest pause before a retry is 16) and with an error",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 1, Sched: 1, Total: 2}, Mask: vsched.CatUser | vsched.CatChan, Weight: 2, Run: m11cancel,
		},
		&explore.Scenario{
			Name: "zoo", Doc: "every kind of repository with one failing file in it, transient or permanent",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Run: m11zoo,
		},
	)
}

// answer kinds of one file: a mode and how often it applies (0: always).
type akind struct {
	mode string
	n    int
}

var transientKinds = []akind{{"", 0}, {"503", 1}, {"refused", 1}, {"cut", 1}, {"503", 5}, {"refused", 3}, {"cut", 5}}
var permanentKinds = []akind{{"503", 0}, {"refused", 0}, {"cut", 0}, {"403", 0}, {"corrupt", 0}, {"404", 0}}

// fileFaults gives each path an answer kind chosen at its first request; it
// returns the set of paths with permanent failures.
func (k *mkit) fileFaults(kinds []akind) map[string]string {
	type st struct {
		akind
		seen int
	}
	m := map[string]*st{}
	perm := map[string]string{}
	k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
		key := id + "/" + p
		s := m[key]
		if s == nil {
			c := k.x.Fault(len(kinds), "upstream "+p)
			s = &st{akind: kinds[c]}
			m[key] = s
			if s.mode != "" && s.n == 0 {
				perm[p] = s.mode
			}
		}
		s.seen++
		if s.mode != "" && (s.n == 0 || s.seen <= s.n) {
			k.apply(s.mode, id, p, rep, nil)
		}
	}
	return perm
}

// limit checks the number of open connections at every request.
func (k *mkit) limit(n int) {
	k.up.OnOpen = func(r *vhttp.Request, open int) {
		if n > 0 && open > n {
			k.x.Failf("limit", "%d connections are open to the upstream of one mirror with max_conns = %d (requesting %s)", open, n, r.Path)
		}
	}
}

func judgeEnd(x *explore.X, k *mkit, err error, perm map[string]string, v1, v2 *mver) {
	if k.up.Total() != 0 {
		x.Failf("leak", "%d connections are still open after the run", k.up.Total())
	}
	if len(perm) == 0 {
		if err != nil {
			x.Failf("transient-fails", "the update failed although every file failed at most five times: %v", err)
		} else if m := oneOf(k.tree("m"), trees(v2)); m != "" {
			x.Failf("tree", "the run reports success but the mirror is wrong: %s", m)
		}
	}
}

func m09faults(x *explore.X) {
	n := x.Free(4, "max_conns")
	c := &mcases[[]int{0, 2, 3}[x.Free(3, "case")]]
	v1, v2 := c.vers()
	k := newMkit(x, n, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.limit(n)
		perm := k.fileFaults(append(transientKinds, permanentKinds...))
		err := k.run()
		judgeEnd(x, k, err, perm, v1, v2)
		x.Outcome("max %d err=%v", k.up.Max("m"), short(err))
	})
}

func m09schedule(x *explore.X) {
	n := 1 + x.Free(2, "max_conns")
	c := &mcases[1+x.Free(2, "case")]
	v1, v2 := c.vers()
	k := newMkit(x, n, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.limit(n)
		perm := k.fileFaults([]akind{{"", 0}, {"503", 2}, {"cut", 1}, {"refused", 1}, {"403", 0}, {"corrupt", 0}})
		err := k.run()
		judgeEnd(x, k, err, perm, v1, v2)
		x.Outcome("max %d err=%v", k.up.Max("m"), short(err))
	})
}

// m09slots checks that failures do not cost slots: whenever a slot is free for
// a while although there is work, it was lost.
func m09slots(x *explore.X) {
	n := 1 + x.Free(3, "max_conns")
	i := 0
	for zoo[i].name != "many" {
		i++
	}
	v := zooVer(i, "1")
	k := newMkit(x, n, zoo[i].sp)
	x.World(func() {
		k.cur = one("m", v)
		k.limit(n)
		perm := k.fileFaults([]akind{{"", 0}, {"503", 1}, {"refused", 2}, {"cut", 1}, {"404", 0}, {"cut", 3}})
		prev := k.fault
		type span struct{ from, to time.Duration }
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
			prev(id, p, r, rep)
			rep.Delay = 10 * time.Second
		}
		err := k.run()
		if len(perm) == 0 && err != nil {
			x.Failf("transient-fails", "the update failed although all failures were transient: %v", err)
			return
		}
		if err != nil {
			x.Outcome("err=%v", short(err))
			return
		}
		// During the download of items (the last phase) there is always work
		// until the last request starts: all slots are in use, apart from
		// retry pauses (a retrying file occupies its slot without a
		// connection).  The pause before retry r is 2^(r-1) s.
		var items []*vhttp.Request
		first := map[string]time.Duration{}
		last := map[string]time.Duration{}
		for _, r := range k.up.Log {
			_, p := k.split(r.Path)
			if strings.HasPrefix(p, "pool/") {
				items = append(items, r)
				if _, ok := first[p]; !ok {
					first[p] = r.At
				}
				if r.Done > last[p] {
					last[p] = r.Done
				}
			}
		}
		end := time.Duration(0)
		var starts []time.Duration
		for _, f := range first {
			starts = append(starts, f)
			if f > end {
				end = f
			}
		}
		sort.Slice(starts, func(i, j int) bool { return starts[i] < starts[j] })
		for _, t := range starts {
			if t >= end {
				break
			}
			busy := 0
			for p := range first {
				if first[p] <= t && last[p] > t {
					busy++
				}
			}
			if busy < n {
				x.Failf("slot-lost", "%v after the start only %d of %d slots are in use although files are waiting (%v)", t, busy, n, starts)
			}
		}
		x.Outcome("n=%d items=%d took %v", n, len(items), end)
	})
}

func m09local(x *explore.X) {
	n := 1 + x.Free(2, "max_conns")
	c := &mcases[2]
	v1, v2 := c.vers()
	k := newMkit(x, n, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.limit(n)
		k.fsFault("")
		err := k.run()
		k.fs.Fault = nil
		if k.up.Total() != 0 {
			x.Failf("leak", "%d connections are still open after the run", k.up.Total())
		}
		x.Outcome("max %d err=%v", k.up.Max("m"), short(err))
	})
}

// ---------------------------------------------------------------- M11

var m11files = []string{"dists/s/Release", "dists/s/Release.gpg", "dists/s/InRelease", "dists/s/main/binary-amd64/Packages", "dists/s/main/binary-amd64/Packages.gz", "dists/s/main/i18n/Translation-en", "pool/m/a_2.deb"}

// sequence chooses every sequence over modes of length at most max.
func sequence(x *explore.X, modes []string, max int) []string {
	var l []string
	for len(l) < max {
		c := x.Free(len(modes)+1, "next answer")
		if c == 0 {
			break
		}
		l = append(l, modes[c-1])
	}
	return l
}

func (k *mkit) bounded(max int) {
	n := map[string]int{}
	for _, r := range k.up.Log {
		_, p := k.split(r.Path)
		if i := strings.Index(p, "/by-hash/"); i >= 0 {
			p = p[:i] // charged to the directory
		}
		n[p]++
		if n[p] > max {
			k.x.Failf("unbounded", "%d requests for %s in one run", n[p], p)
			return
		}
	}
}

func m11transient(x *explore.X) {
	c := &mcases[x.Free(4, "case")]
	file := m11files[x.Free(len(m11files), "file")]
	seq := sequence(x, []string{"503", "refused", "cut"}, 5)
	v1, v2 := c.vers()
	if c.next == "1" {
		file = strings.Replace(file, "a_2", "a_1", 1)
	}
	k := newMkit(x, 1, smallSpec)
	x.World(func() {
		x.Freeze(true)
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		i := 0
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
			if p == file && i < len(seq) {
				k.apply(seq[i], id, p, rep, nil)
				i++
			}
		}
		err := k.run()
		judgeEnd(x, k, err, nil, v1, v2)
		k.bounded(30)
		x.Outcome("%d requests err=%v", len(k.up.Log), short(err))
	})
}

func m11statuses(x *explore.X) {
	file := m11files[x.Free(len(m11files), "file")]
	n := 1 + 4*x.Free(2, "times")
	status := 500 + x.Free(100, "status")
	k := newMkit(x, 1, smallSpec)
	x.World(func() {
		x.Freeze(true)
		v2 := smallVer("m", "2", true)
		prep(k, one("m", smallVer("m", "1", true)))
		k.cur = one("m", v2)
		i := 0
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
			if p == file && i < n {
				i++
				*rep = vhttp.Reply{Status: status, Body: []byte("failed")}
			}
		}
		err := k.run()
		judgeEnd(x, k, err, nil, nil, v2)
		x.Outcome("%s %v", file, short(err))
	})
}

func m11mixed(x *explore.X) {
	c := &mcases[2]
	file := []string{"dists/s/main/binary-amd64/Packages", "pool/m/a_2.deb", "dists/s/Release"}[x.Free(3, "file")]
	max := 5
	if x.Deep {
		max = 6
	}
	seq := sequence(x, []string{"503", "refused", "cut", "corrupt", "404", "403", "slow"}, max)
	forever := false
	if len(seq) == max {
		forever = x.Flag("last answer for ever")
	}
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		x.Freeze(true)
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		i := 0
		dir := path.Dir(file)
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
			if p != file && !(strings.HasPrefix(p, dir+"/by-hash/") && rep.Status == 200 && string(rep.Body) == string(v2.files[file])) {
				return
			}
			m := ""
			if i < len(seq) {
				m = seq[i]
			} else if forever {
				m = seq[len(seq)-1]
			}
			i++
			if m == "slow" {
				rep.BodyDelay = time.Hour
			} else if m == "403" && isRelease(p) {
				// no Release at all is a failure, tested elsewhere
			} else if m != "" {
				k.apply(m, id, p, rep, nil)
			}
		}
		t0 := x.W.Since()
		err := k.run()
		if d := x.W.Since() - t0; d > 40*time.Hour {
			x.Failf("slow", "the run took %v", d)
		}
		k.bounded(40)
		if i > 20 {
			x.Failf("unbounded", "%d requests for %s and its by-hash names", i, file)
		}
		if k.up.Total() != 0 {
			x.Failf("leak", "%d connections are still open after the run", k.up.Total())
		}
		if err == nil && k.tree("m")["pool/m/keep_0.deb"] == "" {
			x.Failf("false-success", "the run reports success without a complete mirror")
		}
		x.Outcome("%d requests err=%v", i, short(err))
	})
}

func m11many(x *explore.X) {
	n := 1 + x.Free(2, "max_conns")
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, n, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		perm := k.fileFaults(append(transientKinds, permanentKinds...))
		err := k.run()
		judgeEnd(x, k, err, perm, v1, v2)
		k.bounded(40)
		x.Outcome("err=%v", short(err))
	})
}

func m11zoo(x *explore.X) {
	i := x.Free(len(zoo), "repository")
	v := zooVer(i, "1")
	k := newMkit(x, 2, zoo[i].sp)
	x.World(func() {
		k.cur = one("m", v)
		perm := k.fileFaults(append([]akind{{"", 0}, {"503", 5}, {"cut", 5}, {"refused", 5}}, permanentKinds...))
		err := k.run()
		judgeEnd(x, k, err, perm, nil, v)
		k.bounded(60)
		x.Outcome("err=%v", short(err))
	})
}

func m11schedule(x *explore.X) {
	c := &mcases[x.Free(3, "case")]
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	sig := x.Flag("signal")
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		var err error
		perm := map[string]string{}
		if sig {
			err, _ = k.runSignal()
			perm["signal"] = ""
		} else {
			perm = k.fileFaults([]akind{{"", 0}, {"503", 2}, {"cut", 1}, {"refused", 0}, {"403", 0}, {"corrupt", 0}})
			failed := false
			k.fs.Fault = func(op, p string) error {
				if x.Fault(2, "fs fault: "+op+" "+p) == 1 {
					failed = true
					return errIO
				}
				return nil
			}
			err = k.run()
			k.fs.Fault = nil
			if failed {
				perm["fs"] = ""
			}
		}
		judgeEnd(x, k, err, perm, v1, v2)
		k.bounded(40)
		x.Outcome("err=%v", short(err))
	})
}

var errIO = fmt.Errorf("input/output error")

func m11cancel(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	kind := []string{"503", "refused", "cut", "hang", "hangbody", ""}[x.Free(6, "behaviour of one file")]
	file := m11files[[]int{0, 3, 6}[x.Free(3, "file")]]
	if c.next == "1" {
		file = strings.Replace(file, "a_2", "a_1", 1)
	}
	at := x.Free(72, "time of the signal") // 0: at an operation
	n := 1 + x.Free(2, "max_conns")
	k := newMkit(x, n, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
			rep.Delay = 700 * time.Millisecond
			if p != file {
				return
			}
			switch kind {
			case "hang":
				rep.Delay = 1000 * time.Hour
			case "hangbody":
				rep.BodyDelay = 1000 * time.Hour
			case "":
			default:
				k.apply(kind, id, p, rep, nil)
			}
		}
		var err error
		var sentAt time.Duration = -1
		var endAt time.Duration
		sent := false
		if at > 0 {
			x.Freeze(true)
			p := vsched.NewProc("run")
			done := false
			g := vsched.GoIn(p, "run", func() { err = runMirror(k.cfg, nil); endAt = x.W.Since(); done = true })
			vsched.Sleep(time.Duration(at) * 500 * time.Millisecond)
			if !done {
				sent = true
				sentAt = x.W.Since()
				vwell.Signal(p)
			}
			vsched.Join(g)
			vsched.Kill(p)
			k.fs.CloseProc(p)
		} else {
			if strings.HasPrefix(kind, "hang") {
				return
			}
			err, sent = k.runSignal2(&sentAt)
			endAt = x.W.Since()
		}
		if sent {
			if endAt-sentAt > 20*time.Second {
				x.Failf("slow-cancel", "the run went on for %v after SIGTERM", endAt-sentAt)
			}
			if err == nil && !sameTree(k.tree("m"), v2.want) {
				x.Failf("false-success", "an interrupted run reports success")
			}
			judge02(x, k, "m", err, v1, v2)
		}
		if k.up.Total() != 0 {
			x.Failf("leak", "%d connections are still open after the run", k.up.Total())
		}
		x.Outcome("%s sent=%v err=%v", kind, sent, short(err))
	})
}

// runSignal2 is runSignal, also giving the time of the signal.
func (k *mkit) runSignal2(at *time.Duration) (error, bool) {
	k.sigAt = at
	err, sent := k.runSignal()
	k.sigAt = nil
	return err, sent
}
