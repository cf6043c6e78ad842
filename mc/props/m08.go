package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vsched"
)

func init() {
	register("M08", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "crash", Doc: "every process crash and power loss image of a first run and of an update, followed by a healthy run: it succeeds and leaves the same trees and directory contents as without a crash",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: 1000000, Weight: 3, Run: func(x *explore.X) { m08crash(x, 1) },
		},
		&explore.Scenario{
			Name: "crash2", Doc: "as crash, also every pair of lost operations", Thorough: true,
			Mask: vsched.CatUser, MaxStep: 1000000, Weight: 4, Run: func(x *explore.X) { m08crash(x, 2) },
		},
		&explore.Scenario{
			Name: "two-mirrors", Doc: "as crash with two mirrors, one of them new, and leftovers of an older crash",
			Mask: vsched.CatUser, MaxStep: 1000000, Weight: 2, Run: m08two,
		},
		&explore.Scenario{
			Name: "double", Doc: "the run after a crash is killed too, at every operation",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, MaxStep: 1000000, Weight: 2, Run: m08double,
		},
		&explore.Scenario{
			Name: "kill-schedule", Doc: "SIGKILL at any operation under every interleaving within the bound",
			Quick: explore.Bounds{Fault: 1, Sched: 1, Total: 2}, Deep: explore.Bounds{Fault: 1, Sched: 2, Total: 3}, Mask: netMask | vsched.CatFS, Weight: 2, NoPrio: true, Run: m08schedule,
		},
		&explore.Scenario{
			Name: "faulty", Doc: "a run with one failing operation or bad file that ends with an error (or not), then power loss",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Mask: vsched.CatUser, MaxStep: 1000000, Weight: 2, Run: m08faulty,
		},
	)
}

// judge08 checks the state after the healthy run that followed crash.
func judge08(x *explore.X, k *mkit, err error, when string) {
	if err != nil {
		x.Failf("recovery-fails", "after %s the next run fails: %v", when, err)
		return
	}
	used := map[string]string{}
	for id, v := range k.cur {
		if m := oneOf(k.tree(id), trees(v)); m != "" {
			x.Failf("tree", "after %s and a successful run mirror %s is wrong: %s", when, id, m)
			return
		}
		if m := modesOK(k.fs, id); m != "" {
			x.Failf("modes", "after %s and a successful run: %s", when, m)
		}
		st := storageOf(k.fs, id)
		used[strings.TrimPrefix(st, mdir+"/")] = id
		n := k.fs.Node(st, false)
		if n == nil || strings.Join(n.Names(), " ") != "info.json "+id && strings.Join(n.Names(), " ") != id+" info.json" {
			x.Failf("contents", "after %s and a successful run %s holds %v", when, st, n.Names())
			return
		}
		// the record of the stored files must be there for the next update
		b, _ := k.fs.Read(st + "/info.json")
		var info map[string]interface{}
		if e := json.Unmarshal(b, &info); e != nil {
			x.Failf("contents", "after %s and a successful run info.json of %s is unreadable: %v", when, id, e)
			return
		}
		for p := range v.want {
			if _, ok := info[p]; !ok {
				x.Failf("contents", "after %s and a successful run info.json of %s does not know %s", when, id, p)
				return
			}
		}
	}
	for _, e := range k.top() {
		n := k.fs.Node(mdir+"/"+e, false)
		switch {
		case e == ".lock":
		case n.IsLink() && k.cur[e] != nil:
		case n.IsDir() && used[e] != "":
		default:
			x.Failf("leftover", "after %s and a successful run %s is still there", when, e)
		}
	}
	if len(k.top()) != 1+2*len(k.cur) {
		x.Failf("contents", "after %s and a successful run the directory holds %v", when, k.top())
	}
}

// healthy performs the run after the crash on fs and judges it.
func (k *mkit) recover08(x *explore.X, fs *vos.FS, when string) {
	k.use(fs)
	nextSecond()
	err := k.run()
	judge08(x, k, err, when)
}

func m08crash(x *explore.X, level int) {
	c := pickCase(x)
	shard := x.Free(shards, "image shard")
	newer := x.Flag("upstream moved on")
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		base := k.fs.Clone()
		k.cur = one("m", v2)
		x.Freeze(true)
		if err := k.run(); err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
			return
		}
		log := k.fs.Log
		live := k.fs
		if newer {
			k.cur = one("m", smallVer("m", "3", c.byhash))
		}
		n := forImages(x, base, log, level, shard, func(im vos.Image, fs *vos.FS) {
			k.recover08(x, fs, im.Describe(log))
		})
		k.use(live)
		x.Outcome("images %d ops %d", n, len(log))
	})
}

func m08two(x *explore.X) {
	shard := x.Free(shards, "image shard")
	byhash := x.Flag("byhash")
	level := vos.Lite
	if x.Deep {
		level = 1
	}
	k := newMkit(x, 2, smallSpec, specN)
	x.World(func() {
		x.Freeze(true)
		prep(k, one("m", smallVer("m", "1", byhash)))
		x.Freeze(true)
		k.fs.Put(mdir+"/.n.19990101_000002/n/pool/x", []byte("x"))
		k.fs.PutLink(mdir+"/n.tmp", mdir+"/.n.19990101_000002/n")
		k.fs.PutLink(mdir+"/m.tmp", mdir+"/.m.19990101_000002/m")
		base := k.fs.Clone()
		k.fs.Log = nil
		k.cur = map[string]*mver{"m": smallVer("m", "2", byhash), "n": verN("1")}
		if err := k.run(); err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
			return
		}
		log := k.fs.Log
		live := k.fs
		n := forImages(x, base, log, level, shard, func(im vos.Image, fs *vos.FS) {
			k.recover08(x, fs, im.Describe(log))
		})
		k.use(live)
		x.Outcome("images %d ops %d", n, len(log))
	})
}

// runKill runs the program and kills it after some change of the file system.
func (k *mkit) runKill() (string, error) {
	k.n++
	p := vsched.NewProc(fmt.Sprintf("run%d", k.n))
	where := ""
	last := -1
	at := func(what string) {
		if where != "" || len(k.fs.Log) == last {
			return // as before the previous operation
		}
		last = len(k.fs.Log)
		if vsched.CurProc() == p && k.x.Fault(2, "SIGKILL before "+what) == 1 {
			where = what
			vos.Exit(137)
		}
	}
	oldF, oldU := k.fs.Fault, k.fault
	k.fs.Fault = func(op, q string) error { at(op + " " + q); return nil }
	k.fault = func(id, q string, r *vhttp.Request, rep *vhttp.Reply) { at("request " + q) }
	err := k.runIn(p)
	k.fs.Fault, k.fault = oldF, oldU
	return where, err
}

func m08double(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		w1, _ := k.runKill()
		nextSecond()
		k.cur = one("m", smallVer("m", "3", c.byhash))
		w2, _ := k.runKill()
		x.Freeze(true)
		k.recover08(x, k.fs, fmt.Sprintf("SIGKILL before %q and again before %q", w1, w2))
		x.Outcome("%v %v", w1 != "", w2 != "")
	})
}

func m08schedule(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		w1, _ := k.runKill()
		x.Freeze(true)
		k.recover08(x, k.fs, fmt.Sprintf("SIGKILL before %q", w1))
		x.Outcome("%v", w1 != "")
	})
}

// verified08 holds the file systems from which recovery was seen to succeed.
var verified08 = map[string]bool{}

func m08faulty(x *explore.X) { lossAfter(x, true) }

// lossAfter cuts the power after a run that may have failed.
func lossAfter(x *explore.X, recovery bool) {
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		base := k.fs.Clone()
		k.cur = one("m", v2)
		k.fsFault("")
		k.pathFaults([]string{"", "corrupt", "403", "refused"}, false, nil)
		err := k.run()
		k.fs.Fault, k.fault = nil, nil
		x.Freeze(true)
		log := k.fs.Log
		live := k.fs
		n := 0
		for _, im := range vos.ImagesAt(log, len(log), 1) {
			fs := vos.Build(base, log, im)
			when := fmt.Sprintf("a run that ended with %v and %s", err, im.Describe(log))
			if v1 == nil && fs.Node(mdir+"/m", false) == nil {
				// never published
			} else if msg := oneOf(treeOf(fs, "m"), trees(v1, v2)); msg != "" {
				x.Failf("incomplete", "after %s the public name shows no complete version: %s", when, msg)
				break
			}
			if key := fmt.Sprintf("%v %x", *c, fs.Hash()); recovery && !verified08[key] {
				k.recover08(x, fs, when)
				if !x.Failed() {
					verified08[key] = true
				}
				n++
			}
			x.Step()
			if x.Failed() {
				break
			}
		}
		k.use(live)
		x.Outcome("err=%v", short(err))
	})
}
