package props

import (
	"fmt"
	"strings"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vsched"
)

func init() {
	register("M07", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "two-runs", Doc: "two runs on one directory (empty, with lock file, or published before; same or different mirrors) under every interleaving of their system calls within the bound",
			Quick: explore.Bounds{Sched: 2, Total: 2}, Deep: explore.Bounds{Sched: 3, Total: 3}, Mask: vsched.CatFS | vsched.CatHTTP | vsched.CatUser, Weight: 3, Run: m07two,
		},
		&explore.Scenario{
			Name: "while-active", Doc: "a second run started at every system call of a run that succeeds or fails: it returns an error and changes nothing",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Sched: 1, Fault: 2, Total: 2}, Mask: vsched.CatFS | vsched.CatUser, Run: m07active,
		},
		&explore.Scenario{
			Name: "after-end", Doc: "a run that ends by success, failure, failing system call, SIGTERM or SIGKILL at any operation: the next run can start",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Run: m07after,
		},
		&explore.Scenario{
			Name: "overtaken", Doc: "a second run that stands still before any of its first system calls, having started at any system call of a first run, goes on when the first one has ended and a third one starts",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 1, Sched: 1, Total: 2}, Mask: vsched.CatFS | vsched.CatUser, Weight: 2, Run: m07overtaken,
		},
		&explore.Scenario{
			Name: "three-runs", Doc: "three runs on an empty directory", Thorough: true,
			Quick: explore.Bounds{Sched: 2, Total: 2}, Mask: vsched.CatFS | vsched.CatUser, Run: m07three,
		},
	)
}

// span records which operations of the directory each process changed.
type mutation struct {
	proc string
	op   string
}

func (k *mkit) recordMutations() *[]mutation {
	var l []mutation
	k.fs.OnOp = func(o *vos.Op) {
		switch o.Kind {
		case vos.OpFsync, vos.OpMark, vos.OpSyncAll:
			return
		}
		n := "?"
		if p := vsched.CurProc(); p != nil {
			n = p.Name
		}
		l = append(l, mutation{n, o.String()})
	}
	return &l
}

type rrun struct {
	p    *vsched.Proc
	g    *vsched.G
	err  error
	done bool
}

func (k *mkit) start(name string, ids ...string) *rrun {
	r := &rrun{p: vsched.NewProc(name)}
	r.g = vsched.GoIn(r.p, "run", func() { r.err = runMirror(k.cfg, ids); r.done = true })
	return r
}

// finish waits for the run and ends the process.
func (k *mkit) finish(rs ...*rrun) {
	for _, r := range rs {
		vsched.Join(r.g)
		vsched.Kill(r.p)
		k.fs.CloseProc(r.p)
	}
}

// judge07 checks that the mutations of the processes do not interleave: what
// a run changes apart from creating the lock file forms one uninterrupted block,
// and a run that returned an error without running changed nothing.
func judge07(x *explore.X, k *mkit, muts []mutation, rs []*rrun) {
	active := map[string]bool{}
	last := ""
	closed := map[string]bool{}
	for _, m := range muts {
		if strings.Contains(m.op, "/.lock") {
			continue
		}
		active[m.proc] = true
		if m.proc != last {
			if closed[m.proc] {
				x.Failf("overlap", "%s changes the directory (%s) in the middle of another run", m.proc, m.op)
				return
			}
			if last != "" {
				closed[last] = true
			}
			last = m.proc
		}
	}
	ok := 0
	for _, r := range rs {
		if r.err == nil {
			ok++
		}
	}
	if ok == 0 {
		var e []string
		for _, r := range rs {
			e = append(e, fmt.Sprint(r.err))
		}
		x.Failf("none-succeeds", "no run succeeded with a healthy upstream: %s", strings.Join(e, "; "))
	}
}

func m07prep(x *explore.X, k *mkit) *mver {
	v1, v2 := smallVer("m", "1", false), smallVer("m", "2", false)
	switch x.Free(3, "directory") {
	case 0:
	case 1:
		k.fs.Put(mdir+"/.lock", nil)
	case 2:
		k.publish(map[string]*mver{"m": v1, "n": verN("1")})
	}
	k.fs.Log = nil
	k.cur = map[string]*mver{"m": v2, "n": verN("2")}
	return v2
}

func m07two(x *explore.X) {
	k := newMkit(x, 2, smallSpec, specN)
	ids := [][2]string{{"m", "m"}, {"m", "n"}}[x.Free(2, "mirrors")]
	x.World(func() {
		m07prep(x, k)
		muts := k.recordMutations()
		a := k.start("A", ids[0])
		b := k.start("B", ids[1])
		k.finish(a, b)
		judge07(x, k, *muts, []*rrun{a, b})
		for i, r := range []*rrun{a, b} {
			v := k.cur[ids[i]]
			if r.err == nil && !sameTree(k.tree(ids[i]), v.want) {
				x.Failf("tree", "run %s reports success but its mirror is wrong: %s", r.p.Name, diffTree(k.tree(ids[i]), v.want))
			}
		}
		x.Outcome("%v | %v", short(a.err), short(b.err))
	})
}

func m07three(x *explore.X) {
	k := newMkit(x, 2, smallSpec, specN)
	x.World(func() {
		m07prep(x, k)
		muts := k.recordMutations()
		rs := []*rrun{k.start("A", "m"), k.start("B", "m"), k.start("C", "n")}
		k.finish(rs...)
		judge07(x, k, *muts, rs)
		x.Outcome("%v | %v | %v", short(rs[0].err), short(rs[1].err), short(rs[2].err))
	})
}

func m07overtaken(x *explore.X) {
	k := newMkit(x, 2, smallSpec, specN)
	at := x.Free(6, "system call before which the second run stands still")
	how := x.Free(2, "end of the first run") // success, failure
	x.World(func() {
		m07prep(x, k)
		if how == 1 {
			k.pathMode("pool/m/a_2.deb", "corrupt")
		}
		muts := k.recordMutations()
		var a, b *rrun
		n := 0
		goOn := false
		k.fs.Fault = func(op, p string) error {
			q := vsched.CurProc()
			if a != nil && b == nil && q == a.p && x.Fault(2, "start a second run before "+op+" "+p) == 1 {
				b = k.start("B", "m")
			}
			if b != nil && q == b.p && !goOn {
				n++
				if n > at {
					vsched.WaitFor(0, "stand still", func() bool { return goOn })
				}
			}
			return nil
		}
		a = k.start("A", "m")
		k.finish(a)
		if b == nil {
			return
		}
		k.fault = nil
		nextSecond()
		goOn = true
		c := k.start("C", "n")
		k.finish(b, c)
		judge07(x, k, *muts, []*rrun{a, b, c})
		for _, r := range []*rrun{b, c} {
			id := map[*rrun]string{b: "m", c: "n"}[r]
			if r.err == nil && !sameTree(k.tree(id), k.cur[id].want) {
				x.Failf("tree", "run %s reports success but its mirror is wrong: %s", r.p.Name, diffTree(k.tree(id), k.cur[id].want))
			}
		}
		x.Outcome("%v | %v | %v", short(a.err), short(b.err), short(c.err))
	})
}

func m07active(x *explore.X) {
	k := newMkit(x, 2, smallSpec, specN)
	fail := x.Flag("failing run")
	other := []string{"m", "n"}[x.Free(2, "mirror of the second run")]
	x.World(func() {
		m07prep(x, k)
		if fail {
			k.pathMode("pool/m/a_2.deb", "corrupt")
		}
		muts := k.recordMutations()
		var a *rrun
		locked := false
		seconds := 0
		k.fs.Fault = func(op, p string) error {
			if a == nil || vsched.CurProc() != a.p {
				return nil
			}
			if !locked {
				locked = k.fs.LockHolder(mdir+"/.lock") == a.p
			}
			if !locked || k.fs.LockHolder(mdir+"/.lock") != a.p {
				return nil
			}
			if x.Fault(2, "start a second run before "+op+" "+p) == 1 {
				seconds++
				// other goroutines of the first run go on meanwhile
				b := k.start(fmt.Sprintf("B%d", seconds), other)
				k.finish(b)
				if b.err == nil {
					x.Failf("second-succeeds", "a second run returned no error while the first one was active (before %s %s)", op, p)
				}
				for _, r := range k.up.Log {
					if r.Proc == b.p.Name {
						x.Failf("second-works", "the second run contacted the upstream while the first one was active: %s", r.Raw)
					}
				}
				for _, m := range *muts {
					if m.proc == b.p.Name {
						x.Failf("second-changes", "the second run changed the directory while the first one was active: %s", m.op)
					}
				}
			}
			return nil
		}
		a = k.start("A", "m")
		k.finish(a)
		k.fs.Fault = nil
		if !locked {
			x.Failf("no-lock", "the run never held the lock on %s/.lock", mdir)
		}
		if fail == (a.err == nil) {
			x.Failf("disturbed", "the first run ended with %v", a.err)
		}
		if !fail && !sameTree(k.tree("m"), k.cur["m"].want) {
			x.Failf("disturbed", "the first run reports success but the mirror is wrong: %s", diffTree(k.tree("m"), k.cur["m"].want))
		}
		x.Outcome("%v seconds=%d", short(a.err), seconds)
	})
}

func m07after(x *explore.X) {
	k := newMkit(x, 2, smallSpec, specN)
	how := x.Free(4, "end")
	x.World(func() {
		m07prep(x, k)
		var err error
		switch how {
		case 0: // killed
			p := vsched.NewProc("A")
			killedAt := false
			at := func(what string) {
				if !killedAt && vsched.CurProc() == p && k.x.Fault(2, "SIGKILL before "+what) == 1 {
					killedAt = true
					vos.Exit(137)
				}
			}
			k.fs.Fault = func(op, q string) error { at(op + " " + q); return nil }
			k.fault = func(id, q string, r *vhttp.Request, rep *vhttp.Reply) { at("request " + q) }
			err = k.runIn(p, "m")
		case 1:
			err, _ = k.runSignal("m")
		case 2:
			k.fsFault("")
			err = k.run("m")
		case 3:
			k.pathFaults([]string{"", "corrupt", "403", "refused"}, false, nil)
			err = k.run("m")
		}
		k.fs.Fault, k.fault = nil, nil
		x.Freeze(true)
		nextSecond()
		err2 := k.run()
		if err2 != nil {
			x.Failf("cannot-start", "after a run that ended with %v the next run fails: %v", err, err2)
		}
		x.Outcome("%v", short(err))
	})
}
