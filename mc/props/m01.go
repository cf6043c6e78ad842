package props

import (
	"fmt"
	"strings"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vsched"
)

var mirrorAssume = []string{
	"the code runs unmodified except for the mechanical rewrite of synchronisation, channel, file system, HTTP transport and well.Environment references (mc/instr)",
	"the file system is the in-memory model mc/vos (POSIX names, links, flock; fsync persists file data or directory entries), checked against the real OS by ./conformance",
	"bounds: the scenario repositories, configurations and deviation budgets listed under coverage.scenarios",
}

type mcase struct {
	base, next string // versions; base "" means nothing published yet
	byhash     bool
}

func (c *mcase) vers() (b, n *mver) {
	if c.base != "" {
		b = smallVer("m", c.base, c.byhash)
	}
	return b, smallVer("m", c.next, c.byhash)
}

func trees(vs ...*mver) (r []map[string]string) {
	for _, v := range vs {
		if v != nil {
			r = append(r, v.want)
		}
	}
	return
}

func one(id string, v *mver) map[string]*mver { return map[string]*mver{id: v} }

// shards splits a loop over explorer branches.
const shards = 16

// imageSet is the deduplicated list of crash images of a journal.
type imageSet struct {
	ims    []vos.Image
	hashes []uint64
}

var imageSets = map[string]*imageSet{}

func imagesOf(base *vos.FS, log []vos.Op, level int) *imageSet {
	var kb strings.Builder
	fmt.Fprintf(&kb, "%x %d ", base.Hash(), level)
	for i := range log {
		kb.WriteString(log[i].String())
		kb.Write(log[i].Data)
	}
	key := kb.String()
	if s := imageSets[key]; s != nil {
		return s
	}
	s := &imageSet{}
	seen := map[uint64]bool{}
	for _, im := range append(vos.Images(log, level), vos.ImagesAt(log, len(log), level)...) {
		h := vos.Build(base, log, im).Hash()
		if im.Cut == len(log) {
			h ^= 1 // judged differently
		}
		if !seen[h] {
			seen[h] = true
			s.ims = append(s.ims, im)
			s.hashes = append(s.hashes, h)
		}
	}
	if len(imageSets) > 64 {
		imageSets = map[string]*imageSet{}
	}
	imageSets[key] = s
	return s
}

// forImages calls f on every crash image of the journal of the current run.
// Images that give the same file system are visited once.
func forImages(x *explore.X, base *vos.FS, log []vos.Op, level int, shard int, f func(im vos.Image, fs *vos.FS)) int {
	s := imagesOf(base, log, level)
	n := 0
	for i, im := range s.ims {
		if i%shards != shard {
			continue
		}
		f(im, vos.Build(base, log, im))
		n++
		x.Step()
		if len(x.Fails) > 0 {
			break
		}
	}
	return n
}

func init() {
	register("M01", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "crash", Doc: "every process crash and power loss image (all/one/prefix of the unsynced operations lost, torn writes) of a first run and of an update, plain and by-hash: the public name shows a complete version",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: func(x *explore.X) { m01crash(x, 1) },
		},
		&explore.Scenario{
			Name: "crash2", Doc: "as crash, also every pair of lost operations", Thorough: true,
			Mask: vsched.CatUser, Run: func(x *explore.X) { m01crash(x, 2) },
		},
		&explore.Scenario{
			Name: "loss-after", Doc: "power loss right after a run with any one failing operation or bad file, garbage collection included",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, MaxStep: 1000000, Run: func(x *explore.X) { lossAfter(x, false) },
		},
		&explore.Scenario{
			Name: "interleave", Doc: "all interleavings within the bound; the public name is checked after every file system change",
			Quick: explore.Bounds{Sched: 2, Total: 2}, Deep: explore.Bounds{Sched: 3, Total: 3}, Mask: netMask, Weight: 3, Run: m01interleave,
		},
		&explore.Scenario{
			Name: "faults", Doc: "any one failing file system operation or bad upstream file, checked after every file system change",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Weight: 3, Run: m01faults,
		},
		&explore.Scenario{
			Name: "moving-upstream", Doc: "the upstream switches to a newer version at any request of the run, plus one bad file",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: m01moving,
		},
		&explore.Scenario{
			Name: "signal", Doc: "SIGTERM at any scheduling point of an update",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Sched: 1, Fault: 1, Total: 2}, Mask: netMask | vsched.CatFS, Run: m01signal,
		},
	)
}

var mcases = []mcase{{"1", "2", false}, {"", "1", true}, {"1", "2", true}, {"", "1", false}}

func pickCase(x *explore.X) *mcase { return &mcases[x.Free(len(mcases), "case")] }

// prep publishes the base version and resets journal and request log.
func prep(k *mkit, base map[string]*mver) {
	any := false
	for _, v := range base {
		if v != nil {
			any = true
		}
	}
	if any {
		k.publish(base)
	}
	k.fs.Log = nil
	k.up.Log = nil
}

func m01crash(x *explore.X, level int) {
	c := pickCase(x)
	shard := x.Free(shards, "image shard")
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		base := k.fs.Clone()
		k.cur = one("m", v2)
		x.Freeze(true)
		if err := k.run(); err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
			return
		}
		log := k.fs.Log
		n := forImages(x, base, log, level, shard, func(im vos.Image, fs *vos.FS) {
			ex := fs.Node(mdir+"/m", false) != nil
			if !ex {
				if v1 != nil {
					x.Failf("disappeared", "after %s the public name is gone", im.Describe(log))
				} else if im.Cut == len(log) {
					x.Failf("not-durable", "after the successful run and %s the public name does not exist", im.Describe(log))
				}
				return
			}
			ok := trees(v1, v2)
			if im.Cut == len(log) {
				ok = trees(v2)
			}
			if msg := oneOf(treeOf(fs, "m"), ok); msg != "" {
				x.Failf("incomplete", "after %s the public name shows no complete version: %s", im.Describe(log), msg)
			}
		})
		x.Outcome("images %d ops %d", n, len(log))
	})
}

func m01interleave(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	conns := 1 + x.Free(2, "max_conns")
	w := worldFor(x, x.Sc.Mask)
	k := newMkit(x, conns, smallSpec)
	x.RunWorld(w, func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		pw := k.watch(map[string][]map[string]string{"m": trees(v1, v2)})
		err := k.run()
		pw.stop()
		if err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
			return
		}
		if m := oneOf(k.tree("m"), trees(v2)); m != "" {
			x.Failf("stale", "after a successful run the public name does not show the new version: %s", m)
		}
		x.Outcome("%d reqs %d max open", len(k.up.Log), k.up.Max("m"))
	})
}

func m01faults(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		pw := k.watch(map[string][]map[string]string{"m": trees(v1, v2)})
		k.fsFault("")
		k.pathFaults(m01modes, false, one("m", v1))
		err := k.run()
		k.fs.Fault = nil
		pw.stop()
		pw.end()
		got := k.tree("m")
		if err == nil && oneOf(got, trees(v2)) != "" {
			x.Failf("stale", "the run reports success but the public name shows: %s", diffTree(got, v2.want))
		}
		x.Outcome("err=%v new=%v", short(err), got != nil && sameTree(got, v2.want))
	})
}

// modes that must never change what is published from a complete version to
// something else (404 of an index legitimately drops that form, so it is not
// used here).
var m01modes = []string{"", "503", "refused", "corrupt", "short", "cut", "longer", "swap", "403"}

func short(err error) string {
	if err == nil {
		return "nil"
	}
	s := err.Error()
	if i := strings.LastIndex(s, ": "); i >= 0 {
		s = s[i+2:]
	}
	return clip(s)
}

// movingKit makes the upstream switch versions at some request.
func (k *mkit) moving(id string, to *mver, keepByHash bool) {
	prev := k.fault
	moved := false
	k.fault = func(i, p string, r *vhttp.Request, rep *vhttp.Reply) {
		if i == id && !moved && k.x.Fault(2, "upstream publishes a new version before serving "+p) == 1 {
			moved = true
			k.cur[id] = to
			*rep = vhttp.Reply{Status: 404, Body: []byte("gone")}
			if b, ok := to.files[p]; ok {
				*rep = vhttp.Reply{Status: 200, Body: b}
			}
		}
		if prev != nil {
			prev(i, p, r, rep)
		}
	}
}

func m01moving(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	v3 := mergeOld(smallVer("m", "3", c.byhash), v2)
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		pw := k.watch(map[string][]map[string]string{"m": trees(v1, v2, v3)})
		// the Release files of v2 and indices of v3 must not mix; Release.gpg
		// is not covered by any checksum and may be of either version
		k.pathFaults([]string{"", "corrupt", "refused"}, false, nil)
		k.moving("m", v3, true)
		pw.known["m"] = append(pw.known["m"], gpgMix(v2, v3), gpgMix(v3, v2))
		err := k.run()
		pw.stop()
		pw.end()
		if err != nil && v1 != nil && oneOf(k.tree("m"), trees(v1)) != "" {
			x.Failf("changed", "the run failed (%v) but the published mirror changed", err)
		}
		x.Outcome("err=%v", short(err))
	})
}

// mergeOld keeps old pool files and by-hash files available, as real
// repositories do.
func mergeOld(n, o *mver) *mver {
	r := &mver{repo: n.repo, want: n.want, files: map[string][]byte{}}
	for p, b := range o.files {
		if strings.Contains(p, "/by-hash/") || strings.HasPrefix(p, "pool/") {
			r.files[p] = b
		}
	}
	for p, b := range n.files {
		r.files[p] = b
	}
	return r
}

func gpgMix(a, b *mver) map[string]string {
	m := map[string]string{}
	for p, c := range a.want {
		m[p] = c
	}
	m["dists/s/Release.gpg"] = b.want["dists/s/Release.gpg"]
	return m
}

func m01signal(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		pw := k.watch(map[string][]map[string]string{"m": trees(v1, v2)})
		err, sig := k.runSignal()
		pw.stop()
		pw.end()
		got := k.tree("m")
		if err == nil && oneOf(got, trees(v2)) != "" {
			x.Failf("stale", "the run reports success but the public name shows no complete new version")
		}
		x.Outcome("signal=%v err=%v new=%v", sig, short(err), got != nil && sameTree(got, v2.want))
	})
	_ = fmt.Sprint
}
