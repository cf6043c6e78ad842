package props

import (
	"fmt"
	"time"

	cacherprog "github.com/cybozu-go/aptutil/cmd/go-apt-cacher"
	mirrorprog "github.com/cybozu-go/aptutil/cmd/go-apt-mirror"
	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vprog"
	"vmc/vsched"
	"vmc/vwell"
)

const (
	mirrorConf = "/etc/apt/mirror.toml"
	cacherConf = "/etc/go-apt-cacher.toml"
)

// exitError is the exit status of a program.
type exitError int

func (e exitError) Error() string { return fmt.Sprintf("exit status %d", int(e)) }

// program starts main of a program as a process.
func program(p *vsched.Proc, main func(), args ...string) *vsched.G {
	vprog.Start(args...)
	return vsched.GoIn(p, "main", func() {
		main()
		vos.Exit(0)
	})
}

// runProgram runs go-apt-mirror with a configuration file and arguments; the
// result is its exit status.
func (k *mkit) runProgram(doc string, args ...string) error {
	k.n++
	p := vsched.NewProc(fmt.Sprintf("run%d", k.n))
	return k.runProgramIn(p, doc, args...)
}

func (k *mkit) runProgramIn(p *vsched.Proc, doc string, args ...string) error {
	k.fs.Put(mirrorConf, []byte(doc))
	vsched.Join(program(p, mirrorprog.Main, append([]string{"/usr/bin/go-apt-mirror"}, args...)...))
	vsched.Kill(p)
	k.fs.CloseProc(p)
	k.fs.Del(mirrorConf)
	vprog.End()
	switch {
	case !p.Exited:
		return errKilled
	case p.ExitCode != 0:
		return exitError(p.ExitCode)
	}
	return nil
}

// startProgram starts go-apt-cacher with a configuration file; it returns when the
// program accepts connections (nil) or has ended.
func (k *ckit) startProgram(doc string, args ...string) error {
	vwell.Reset()
	k.n++
	k.p = vsched.NewProc(fmt.Sprintf("cacher%d", k.n))
	k.fs.Put(cacherConf, []byte(doc))
	p := k.p
	program(p, cacherprog.Main, append([]string{"/usr/bin/go-apt-cacher"}, args...)...)
	up := false
	vsched.WaitFor(0, "start", func() bool { _, up = vwell.Server(p); return up || p.Live() == 0 })
	vprog.End()
	if !up {
		if !p.Exited {
			return errKilled
		}
		return exitError(p.ExitCode)
	}
	k.h, _ = vwell.Server(p)
	return nil
}

// doc is the configuration file for k.specs.
func (k *mkit) doc() string {
	doc := field("dir", k.cfg.Dir) + field("max_conns", k.cfg.MaxConns)
	for _, s := range k.specs {
		doc += mirrorSection(s.id, "http://up/"+s.id+"/", s.suites, s.sections, s.archs, s.source)
	}
	return doc
}

// m02program runs the program itself: its exit status is the report.
func m02program(x *explore.X) {
	if !mirrorprog.Covered {
		x.World(func() { x.Outcome("not covered") })
		return
	}
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec, specN)
	n1, n2 := verN("1"), verN("2")
	args := [][]string{nil, {"m"}, {"m", "n"}, {"n"}, {"m", "none"}, {"none"}}[x.Free(6, "arguments")]
	signal := x.Flag("signal")
	bad := x.Free(3, "configuration file")
	x.World(func() {
		old := map[string]*mver{"n": n1}
		if v1 != nil {
			old["m"] = v1
		}
		prep(k, old)
		k.prog = true
		k.up.Log = nil
		k.cur = map[string]*mver{"m": v2, "n": n2}
		run := func() error { return k.run(args...) }
		switch {
		case bad == 1: // unknown key
			run = func() error { return k.runProgram(field("dirs", "x")+k.doc(), args...) }
		case bad == 2: // another file
			run = func() error { return k.runProgram("", append([]string{"-f", "/etc/none.toml"}, args...)...) }
		case signal:
			run = func() error { err, _ := k.runSignal(args...); return err }
		default:
			k.fsFault("")
			k.pathFaults([]string{"", "503", "corrupt", "403"}, false, nil)
		}
		err := run()
		k.fs.Fault = nil
		unknown := len(args) > 0 && args[len(args)-1] == "none"
		if err == nil && (bad > 0 || unknown) {
			x.Failf("false-success", "arguments %v and configuration %d are accepted", args, bad)
		}
		if bad > 0 && len(k.up.Log) > 0 {
			x.Failf("started", "%d requests with a bad configuration file", len(k.up.Log))
		}
		for _, id := range []string{"m", "n"} {
			asked := len(args) == 0
			for _, a := range args {
				asked = asked || a == id
			}
			from, to := v1, v2
			if id == "n" {
				from, to = n1, n2
			}
			if asked && bad == 0 && !unknown {
				judge02(x, k, id, err, from, to)
			} else if from != nil {
				if t := k.tree(id); !sameTree(t, from.want) {
					x.Failf("changed", "%s was not to be updated, but %s", id, diffTree(t, from.want))
				}
			} else if k.tree(id) != nil {
				x.Failf("changed", "%s was not to be updated, but exists", id)
			}
		}
		x.Outcome("%v err=%v", args, err)
	})
}

// doc is the configuration file for k.cfg.
func (k *ckit) doc() string {
	c := k.cfg
	doc := field("check_interval", c.CheckInterval) + field("cache_period", c.CachePeriod) + field("max_conns", c.MaxConns) +
		field("cache_capacity", c.CacheCapacity) + field("meta_dir", c.MetaDirectory) + field("cache_dir", c.CacheDirectory) + "[mapping]\n"
	for _, p := range sortedKeys(c.Mapping) {
		doc += field(tomlString(p), c.Mapping[p])
	}
	return doc
}

// c04program runs the program itself and ends it with SIGTERM.
func c04program(x *explore.X) {
	if !cacherprog.Covered {
		x.World(func() { x.Outcome("not covered") })
		return
	}
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.MaxConns = x.Free(2, "max_conns")
	k.prog = true
	sigAt := []time.Duration{0, time.Millisecond, 10 * time.Second, 10*time.Second + time.Millisecond, 0}
	reqAt := []time.Duration{0, 10 * time.Second}
	i, j := x.Free(len(sigAt), "SIGTERM"), x.Free(len(reqAt), "requests")
	never := i == len(sigAt)-1
	v1 := cver0("1")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) { rep.Delay = time.Millisecond }
		k.get("u/" + cRel)
		p := k.p
		x.Freeze(false)
		start := x.W.Since()
		if !never {
			vsched.AfterFunc(sigAt[i]-start, func() { vwell.Signal(p) })
		}
		vsched.Sleep(reqAt[j] - start)
		rs := []*cresp{k.send("GET", "u/"+cPkg), k.send("GET", "u/"+cItem)}
		k.wait(patience, rs...)
		for _, r := range rs {
			switch {
			case !r.done && p.Exited:
				r.refused = true // closed when the program ended
			case !r.done:
				x.Failf("unanswered", "%s %s is not answered; the program was to end", r.method, r.path)
			case never && (r.refused || r.status != 200):
				x.Failf("refused", "%s while the program runs", r)
			}
		}
		x.Freeze(true)
		if never {
			vsched.Sleep(time.Minute)
			if p.Exited {
				x.Failf("exit", "the program ended by itself with status %d", p.ExitCode)
			}
			x.Outcome("runs")
			return
		}
		late := false
		vsched.AfterFunc(patience, func() { late = true })
		vsched.WaitFor(0, "exit", func() bool { return late || p.Live() == 0 })
		if !p.Exited {
			x.Failf("no-end", "the program has not ended %v after SIGTERM", patience)
		} else if p.ExitCode != 0 {
			x.Failf("exit", "after SIGTERM the program ends with status %d", p.ExitCode)
		}
		x.Outcome("ended %d %d", rs[0].status, rs[1].status)
	})
}
