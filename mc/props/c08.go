package props

import (
	"bytes"
	"fmt"
	"path"
	"strings"
	"time"

	"github.com/cybozu-go/aptutil/apt"
	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
)

func init() {
	register("C08", "model_checking", append([]string{"at the very instant the period ends both answers are right"}, cacherAssume...),
		&explore.Scenario{
			Name: "timeline", Doc: "every sequence of 5 (thorough 6) steps: request for one of two items, the upstream of the first fails in another way or works, time passes (less than the period, to just before and just after its end); cache_period 0, 1 and 4; judged against a reference",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: c08timeline,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "two clients during a failing fetch and around the end of the period under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: cMask, Weight: 2, Run: c08schedule,
		},
		&explore.Scenario{
			Name: "local", Doc: "a fetch that fails because of any failing file system operation is remembered like any other failure",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Mask: vsched.CatUser, Run: c08local,
		},
		&explore.Scenario{
			Name: "refresh", Doc: "failing refreshes of a cached Release with a long cache_period do not hide it nor its later versions",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c08refresh,
		},
		&explore.Scenario{
			Name: "pending", Doc: "a signature that is missing or failing is fetched by the checks of Release and requested by clients at any times, with cache periods shorter and longer than the interval; judged against a reference",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: c08pending,
		},
		&explore.Scenario{
			Name: "download", Doc: "every sequence of 5 (thorough 6) steps: request, Download called from outside, eviction, the upstream fails or works, time passes; judged against a reference",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: c08download,
		},
	)
	register("C09", "model_checking", cacherAssume,
		&explore.Scenario{
			Name: "checks", Doc: "every sequence of four (five) outcomes of the checks (fine, 404, 503, no connection, broken transfer, garbage, late by less and by more than the interval) of Release, Release.gpg or InRelease, restart in between or not; then a new version is published at any half second: one interval later everything is answered from it",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: c09checks,
		},
		&explore.Scenario{
			Name: "long", Doc: "up to 12 (40) checks in a row with the same outcome, before and after up to one with another outcome, then a new version",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 1, Run: c09long,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "clients request the files while the check and the publication happen, under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: cMask, Weight: 3, Run: c09schedule,
		},
		&explore.Scenario{
			Name: "listed", Doc: "repositories whose Release lists Release files of components, and files of its own directory (Release, Release.gpg, InRelease) with stale checksums, flat and not: every order of first requests, restart in between or not; two new versions, each served one interval later",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: c09listed,
		},
		&explore.Scenario{
			Name: "local", Doc: "any failing file system operation during a check or a first download (then restart or not): the next check repairs it",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: c09local,
		},
	)
	register("C12", "model_checking", cacherAssume,
		&explore.Scenario{
			Name: "down", Doc: "every sequence of 5 (thorough 6) steps (requests for indices larger than the cache, for items of several sizes, for missing files, bad refreshes, a new version, restart); then the upstream fails completely: everything cached that matches the current checksums is served; indices stay on disk all the time",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: c12down,
		},
		&explore.Scenario{
			Name: "faults", Doc: "cached files are served while any two (three) other upstream answers are bad",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: c12faults,
		},
		&explore.Scenario{
			Name: "start", Doc: "any one (two) failing system calls while the program starts on a filled cache, also with an outdated index: it starts with everything or reports an error",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Run: c12start,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "a cached index and item are requested while others are downloaded, evicted and refreshed with every outcome, under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Fault: 1, Total: 2}, Deep: explore.Bounds{Sched: 2, Fault: 1, Total: 3}, Mask: cMask, Weight: 3, Run: c12schedule,
		},
		&explore.Scenario{
			Name: "large", Doc: "files of 13 sizes around 4 KiB, 32 KiB, 64 KiB, 1 MiB and 2 MiB (item, Packages, Packages.gz, Translation, Release): complete answers to GET, HEAD and ranges, also after a restart while the upstream is down, without fetching anything again, and of the new version after a refresh",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: 10000000, Run: largeCacher,
		},
	)
	register("C15", "model_checking", cacherAssume,
		&explore.Scenario{
			Name: "replace", Doc: "two clients read a file of several buffers while it is replaced by the refresh or evicted, under every interleaving of file operations within the bound",
			Quick: explore.Bounds{Sched: 2, Total: 2}, Deep: explore.Bounds{Sched: 3, Total: 3}, Mask: vsched.CatFS | vsched.CatIO | vsched.CatHTTP | vsched.CatUser, Weight: 4, Run: c15replace,
		},
		&explore.Scenario{
			Name: "broken", Doc: "every length at which a transfer breaks or is shortened, with and without announced length and checksum, in reads of 1 and more bytes: never answered with 200",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c15broken,
		},
		&explore.Scenario{
			Name: "local", Doc: "any two (three) failing or short file system operations while downloading and serving: a 200 answer has the complete body",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: c15local,
		},
		&explore.Scenario{
			Name: "large", Doc: "files of 13 sizes around 4 KiB, 32 KiB, 64 KiB, 1 MiB and 2 MiB (item, Packages, Packages.gz, Translation, Release): complete answers to GET, HEAD and ranges, also after a restart and of a new version",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: 10000000, Run: largeCacher,
		},
	)
}

// ---------------------------------------------------------------- C08

func c08timeline(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 100000
	period := time.Duration([]int{0, 1, 4}[x.Free(3, "cache_period")]) * time.Second
	k.cfg.CachePeriod = int(period / time.Second)
	listed := x.Flag("listed")
	v := cver0("1")
	depth := 5
	if x.Deep {
		depth = 6
	}
	type fail struct {
		status int
		at     time.Duration
	}
	x.World(func() {
		k.publish("u", v.files)
		if !k.mustStart() {
			return
		}
		if listed {
			k.get("u/" + cRel)
			k.get("u/" + cPkg)
		}
		down := 1
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			if p == "u/"+cItem {
				spoil(cOutcomes[down].mode, "", rep, nil)
			}
		}
		fails := map[string]fail{}
		cached := map[string]bool{}
		for i := 0; i < depth && !x.Failed(); i++ {
			switch c := x.Free(7, "step"); c {
			case 0, 1:
				p := []string{cItem, cKeep}[c]
				n := k.fetches("u/" + p)
				now := x.W.Since()
				r := k.get("u/" + p)
				got := k.fetches("u/"+p) - n
				want := 200
				if p == cItem {
					want = cOutcomes[down].status
					if !listed && cOutcomes[down].mode == "corrupt" {
						want = 200
					}
				}
				f, failed := fails[p]
				switch {
				case cached[p]:
					if r.status != 200 || got != 0 {
						x.Failf("cached", "%s, %d upstream requests for a cached file", r, got)
					}
				case failed && now < f.at+period:
					if r.status != f.status || got != 0 {
						x.Failf("not-remembered", "%v after a failure with %d (period %v): %s, %d upstream requests", now-f.at, f.status, period, r, got)
					}
				case failed && now == f.at+period:
					if got > 1 || got == 1 && r.status != want || got == 0 && r.status != f.status {
						x.Failf("wrong", "%v after a failure with %d (period %v): %s, %d upstream requests", now-f.at, f.status, period, r, got)
					}
				default:
					if got != 1 || r.status != want {
						x.Failf("outlived", "%s, %d upstream requests; failed before: %v, %v ago; the upstream answers %d", r, got, failed, now-f.at, want)
					}
				}
				if got == 1 {
					if r.status == 200 {
						cached[p] = true
					} else {
						fails[p] = fail{r.status, x.W.Since()}
					}
				}
			case 2:
				vsched.Sleep(period / 2)
			case 3:
				if period > 0 {
					vsched.Sleep(period - time.Millisecond)
				}
			case 4:
				vsched.Sleep(period + time.Millisecond)
			case 5:
				down = 0
			case 6:
				down = 1 + down%(len(cOutcomes)-1)
			}
		}
		s := ""
		for _, r := range k.all {
			s += fmt.Sprint(" ", r.status)
		}
		x.Outcome("%s", s)
	})
}

func c08schedule(x *explore.X) {
	k := newCkit(x)
	k.cfg.CachePeriod = 3
	o := cOutcomes[1+x.Free(4, "outcome")]
	again := x.Flag("fails again")
	v := cver0("1")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v.files)
		if !k.mustStart() {
			return
		}
		x.Freeze(false)
		n := 0
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			if p == "u/"+cItem {
				n++
				if n == 1 || again && n == 2 {
					spoil(o.mode, "", rep, nil)
				}
			}
		}
		rs := []*cresp{k.send("GET", "u/"+cItem), k.send("GET", "u/"+cItem), k.send("GET", "u/"+cKeep)}
		if !k.answered(rs...) {
			return
		}
		if n != 1 || rs[0].status != o.status || rs[1].status != o.status || rs[2].status != 200 {
			x.Failf("not-remembered", "%d fetches; %s; %s; %s", n, rs[0], rs[1], rs[2])
		}
		vsched.Sleep(2900 * time.Millisecond)
		rs = []*cresp{k.send("GET", "u/"+cItem), k.send("GET", "u/"+cItem)}
		if !k.answered(rs...) {
			return
		}
		if n != 1 || rs[0].status != o.status || rs[1].status != o.status {
			x.Failf("not-remembered", "%d fetches; %s; %s", n, rs[0], rs[1])
		}
		vsched.Sleep(100 * time.Millisecond)
		// the period ends at this instant
		rs = []*cresp{k.send("GET", "u/"+cItem), k.send("GET", "u/"+cItem)}
		if !k.answered(rs...) {
			return
		}
		if n > 2 {
			x.Failf("not-remembered", "%d fetches", n)
		}
		t0 := n
		vsched.Sleep(500 * time.Millisecond)
		r := k.get("u/" + cItem)
		switch {
		case t0 == 2 && again:
			if r.status != o.status || n != 2 {
				x.Failf("not-remembered", "%d fetches; %s half a second after the second failure", n, r)
			}
		case t0 == 1 && again:
			if r.status != o.status || n != 2 {
				x.Failf("outlived", "%d fetches; %s after the period", n, r)
			}
		default:
			if r.status != 200 || n != 2 {
				x.Failf("outlived", "%d fetches; %s although the upstream works again", n, r)
			}
		}
		vsched.Sleep(3500 * time.Millisecond)
		if r := k.get("u/" + cItem); r.status != 200 {
			x.Failf("outlived", "%s although the upstream works again for long", r)
		}
		x.Outcome("%d %d", t0, n)
	})
}

func c08local(x *explore.X) {
	k := newCkit(x)
	k.cfg.CachePeriod = 3
	p := []string{cItem, cPkg, cRel}[x.Free(3, "file")]
	x.World(func() {
		k.publish("u", cver0("1").files)
		if !k.mustStart() {
			return
		}
		k.fsFault()
		r := k.get("u/" + p)
		k.fs.Fault = nil
		n := k.fetches("u/" + p)
		if r.status != 200 && n == 1 {
			vsched.Sleep(2 * time.Second)
			r2 := k.get("u/" + p)
			if r2.status != r.status || k.fetches("u/"+p) != 1 {
				if r2.status != 200 || k.disk(ccache)["u/"+p]+k.disk(cmeta)["u/"+p] == "" {
					x.Failf("not-remembered", "%s and after 2 s %s, %d fetches", r, r2, k.fetches("u/"+p))
				}
			}
		}
		vsched.Sleep(4 * time.Second)
		if r := k.get("u/" + p); r.status != 200 {
			x.Failf("outlived", "%s after the period", r)
		}
		if r := k.get("u/" + cKeep); r.status != 200 {
			x.Failf("affected", "%s because of another file", r)
		}
		x.Outcome("%d", r.status)
	})
}

func c08refresh(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = []int{5, 25, 1000}[x.Free(3, "cache_period")]
	modes := []string{"", "404", "503", "refused", "cut"}
	x.World(func() {
		k.publish("u", cver0("1").files)
		if !k.mustStart() {
			return
		}
		ver := 1
		k.get("u/" + cRel)
		k.get("u/" + cRel + ".gpg")
		for i := 0; i < 4 && !x.Failed(); i++ {
			m := modes[x.Free(len(modes), "refresh")]
			k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) { spoil(m, "", rep, nil) }
			v := fmt.Sprint(i + 2)
			k.publish("u", cver0(v).files)
			vsched.Sleep(10*time.Second + time.Millisecond)
			if m == "" {
				ver = i + 2
			}
			for _, p := range []string{cRel, cRel + ".gpg"} {
				r := k.get("u/" + p)
				if r.status != 200 || r.body != string(cver0(fmt.Sprint(ver)).files[p]) {
					x.Failf("hidden", "%s although version %d is cached", r, ver)
				}
			}
		}
		x.Outcome("%d", ver)
	})
}

func c08pending(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	period := time.Duration([]int{4, 7, 15, 26}[x.Free(4, "cache_period")]) * time.Second
	k.cfg.CachePeriod = int(period / time.Second)
	const gpg = "u/" + cRel + ".gpg"
	windows := 3
	if x.Deep {
		windows = 4
	}
	x.World(func() {
		k.publish("u", cver0("1").files)
		if !k.mustStart() {
			return
		}
		mode := ""
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			if p == gpg {
				spoil(mode, "", rep, nil)
			}
		}
		k.get("u/" + cRel)
		start := x.W.Since()
		cached, failed, status := false, time.Duration(-1), 0
		seen := 0
		// fetched notes a fetch that ended at this moment
		fetched := func() {
			n := k.fetches(gpg)
			if n == seen {
				return
			}
			seen = n
			if mode == "" {
				cached = true
				return
			}
			failed, status = x.W.Since(), map[string]int{"404": 404, "refused": 500}[mode]
		}
		for w := 0; w < windows && !x.Failed(); w++ {
			mode = []string{"", "404", "refused"}[x.Free(3, "answer")]
			probes := x.Free(8, "requests")
			vsched.Sleep(start + time.Duration(w)*10*time.Second + 500*time.Millisecond - x.W.Since())
			if n := k.fetches(gpg); n > seen {
				// by the check, half a second ago
				fetched()
				failed -= 500 * time.Millisecond
			}
			for i, off := range []int{1, 5, 9} {
				if probes&(1<<i) == 0 {
					continue
				}
				vsched.Sleep(start + time.Duration(w*10+off)*time.Second - x.W.Since())
				now := x.W.Since()
				r := k.get(gpg)
				got := k.fetches(gpg) - seen
				switch {
				case cached:
					if r.status != 200 || got != 0 {
						x.Failf("cached", "%s, %d upstream requests for a cached file", r, got)
					}
				case failed >= 0 && now < failed+period:
					if r.status != status || got != 0 {
						x.Failf("not-remembered", "%v after a failure with %d (period %v): %s, %d upstream requests", now-failed, status, period, r, got)
					}
				case failed >= 0 && now == failed+period:
				default:
					if got != 1 {
						x.Failf("outlived", "%s, %d upstream requests; the last failure ended %v ago", r, got, now-failed)
					}
				}
				fetched()
			}
		}
		s := ""
		for _, r := range k.all {
			s += fmt.Sprint(" ", r.status)
		}
		x.Outcome("%s", s)
	})
}

// downloader is the part of *cacher.Cacher that other programs may use.
type downloader interface {
	Download(p string, valid *apt.FileInfo) <-chan struct{}
}

func c08download(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 100000
	const period = 4 * time.Second
	k.cfg.CachePeriod = int(period / time.Second)
	depth := 5
	if x.Deep {
		depth = 6
	}
	o := cOutcomes[1+x.Free(3, "failure")]
	const big = "pool/big.deb"
	files := map[string][]byte{}
	for p, b := range cver0("1").files {
		files[p] = b
	}
	files[big] = bytes.Repeat([]byte("b"), vsched.GiB)
	x.World(func() {
		k.publish("u", files)
		if !k.mustStart() {
			return
		}
		down := true
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			if p == "u/"+cItem && down {
				spoil(o.mode, "", rep, nil)
			}
		}
		cached, maybe := false, false
		failed, status := time.Duration(-1), 0
		for i := 0; i < depth && !x.Failed(); i++ {
			now := x.W.Since()
			n := k.fetches("u/" + cItem)
			switch x.Free(6, "step") {
			case 0:
				r := k.get("u/" + cItem)
				got := k.fetches("u/"+cItem) - n
				want := 200
				if down {
					want = o.status
				}
				switch {
				case cached:
					if r.status != 200 || got != 0 {
						x.Failf("cached", "%s, %d upstream requests for a cached file", r, got)
					}
				case failed >= 0 && now < failed+period:
					if r.status != status || got != 0 {
						x.Failf("not-remembered", "%v after a failure with %d: %s, %d upstream requests", now-failed, status, r, got)
					}
				case failed >= 0 && now == failed+period || maybe:
				default:
					if got != 1 || r.status != want {
						x.Failf("outlived", "%s, %d upstream requests; the upstream answers %d", r, got, want)
					}
				}
				if got > 0 {
					if down {
						failed, status = now, o.status
					} else {
						cached, maybe, failed = true, false, -1
					}
				}
			case 1:
				d, ok := any(k.c).(downloader)
				if !ok {
					break
				}
				vsched.Join(vsched.GoIn(k.p, "caller", func() { vsched.Recv(d.Download("u/"+cItem, nil)) }))
				if k.fetches("u/"+cItem) == n {
					break
				}
				switch {
				case !down:
					cached, maybe, failed = true, false, -1
				case cached:
					// whether this failure counts for an item that is evicted later is open
					maybe = true
				default:
					failed, status = x.W.Since(), o.status
				}
			case 2:
				if r := k.get("u/" + big); r.status != 200 {
					x.Failf("affected", "%s", r)
				}
				cached = false
			case 3:
				down = !down
			case 4:
				vsched.Sleep(period / 2)
			case 5:
				vsched.Sleep(period + time.Millisecond)
				maybe = false
			}
		}
		s := ""
		for _, r := range k.all {
			s += fmt.Sprint(" ", r.status)
		}
		x.Outcome("%s", s)
	})
}

// ---------------------------------------------------------------- C09

var c09modes = []string{"", "404", "503", "refused", "cut", "garbage", "late", "later"}

func c09apply(m string, rep *vhttp.Reply) {
	switch m {
	case "garbage":
		if rep.Status == 200 {
			rep.Body = []byte("<html>captive portal</html>\n")
		}
	case "later":
		rep.BodyDelay = 14 * time.Second
	default:
		spoil(m, "", rep, nil)
	}
}

// newVersion checks that everything is answered from v.
func (k *ckit) newVersion(v *cver, ps ...string) {
	for _, p := range ps {
		if k.x.Failed() {
			return
		}
		if r := k.get("u/" + p); r.status != 200 || r.body != string(v.files[p]) {
			k.x.Failf("not-updated", "%s more than one interval after the new version was published", r)
		}
	}
}

func c09checks(x *explore.X) {
	kind := x.Free(3, "file")
	names := []string{"Release", "Release.gpg"}
	if kind == 2 {
		names = []string{"InRelease"}
	}
	target := []string{"Release", "Release.gpg", "InRelease"}[kind]
	name := names[0]
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 3
	k.cfg.MaxConns = 1
	n := 3
	if x.Deep {
		n = 4
	}
	v1, v2 := cver0("1", names...), cver0("2", names...)
	x.World(func() {
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		k.get("u/dists/s/" + name)
		if x.Flag("all cached") {
			k.get("u/" + cPkg)
			k.get("u/" + cPkg + ".gz")
			k.get("u/" + cItem)
		}
		restart := x.Free(n+1, "restart before check") // n: never
		broken := false
		for i := 0; i < n && !x.Failed(); i++ {
			if i == restart {
				k.stop()
				if !k.mustStart() {
					return
				}
			}
			m := c09modes[x.Free(len(c09modes), "check")]
			k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
				if p == "u/dists/s/"+target {
					c09apply(m, rep)
					broken = broken || m == "garbage"
				}
			}
			vsched.Sleep(10 * time.Second)
		}
		k.fault = nil
		// checks may be late by what the last one needed
		vsched.Sleep(time.Duration(x.Free(4, "moment")) * 5 * time.Second / 2)
		k.publish("u", v2.files)
		vsched.Sleep(10*time.Second + 15*time.Second)
		k.newVersion(v2, append([]string{"dists/s/" + name, cPkg, cItem, cPkg + ".gz", cItem}, "dists/s/"+names[len(names)-1])...)
		x.Outcome("%v", broken)
	})
}

// c09long is about checks that end after a while.
func c09long(x *explore.X) {
	names := [][]string{{"Release", "Release.gpg"}, {"InRelease"}}[x.Free(2, "file")]
	target := names[x.Free(len(names), "what fails")]
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = x.Free(2, "cache_period") * 15
	lens := []int{1, 2, 3, 4, 5, 6, 8, 12}
	if x.Deep {
		lens = append(lens, 20, 40)
	}
	n := lens[x.Free(len(lens), "checks")]
	modes := []string{c09modes[x.Free(len(c09modes), "outcome")], c09modes[x.Free(len(c09modes), "other outcome")]}
	at := []int{0, n / 2, n - 1}[x.Free(3, "position")]
	v1, v2 := cver0("1", names...), cver0("2", names...)
	x.World(func() {
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		k.newVersion(v1, "dists/s/"+names[0], cPkg, cItem)
		for i := 0; i < n; i++ {
			m := modes[0]
			if i == at {
				m = modes[1]
			}
			k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
				if p == "u/dists/s/"+target {
					c09apply(m, rep)
				}
			}
			vsched.Sleep(10 * time.Second)
		}
		k.fault = nil
		k.publish("u", v2.files)
		vsched.Sleep(10*time.Second + 15*time.Second)
		k.newVersion(v2, "dists/s/"+names[0], cPkg, cItem, "dists/s/"+names[len(names)-1])
		x.Outcome("%v", modes[0] == modes[1])
	})
}

// c09listing is a version whose Release files list themselves, with the
// content "" or that of some other version, and the Release of a component.
func c09listing(ver, dir string, stale bool) *cver {
	r := crepo(ver, "Release", "Release.gpg", "InRelease")
	s := &r.suites[0]
	s.dir = dir
	s.indices = append(s.indices, rindex{rel: "main/binary-amd64/Release", raw: []byte("Archive: s\nVersion: " + ver + "\n")})
	v := newCver(r)
	for _, n := range []string{"Release", "InRelease"} {
		var out []string
		for _, l := range strings.Split(string(v.files[path.Join(dir, n)]), "\n") {
			out = append(out, l)
			for _, k := range allSums {
				if l != k+":" {
					continue
				}
				for _, self := range []string{"Release", "InRelease", "Release.gpg"} {
					old := ""
					if stale {
						old = "stale " + self
					}
					out = append(out, fmt.Sprintf(" %s %d %s", hexsum(k, []byte(old)), len(old), self))
				}
			}
		}
		v.files[path.Join(dir, n)] = []byte(strings.Join(out, "\n"))
	}
	return v
}

func c09listed(x *explore.X) {
	dir := []string{"dists/s", "."}[x.Free(2, "flat")]
	stale := x.Flag("stale content")
	var vs []*cver
	for _, n := range []string{"1", "2", "3"} {
		vs = append(vs, c09listing(n, dir, stale))
	}
	files := []string{path.Join(dir, "Release"), path.Join(dir, "Release.gpg"), path.Join(dir, "InRelease"), path.Join(dir, "main/binary-amd64/Release"), path.Join(dir, "main/binary-amd64/Packages")}
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 0
	x.World(func() {
		k.publish("u", vs[0].files)
		if !k.mustStart() {
			return
		}
		// the first three requests
		left := append([]string(nil), files...)
		var first []string
		for i := 0; i < 3; i++ {
			j := x.Free(len(left), "request")
			first = append(first, left[j])
			left = append(left[:j:j], left[j+1:]...)
		}
		k.newVersion(vs[0], first...)
		listed := false
		for _, p := range first {
			listed = listed || p == files[0] || p == files[2]
			if p == files[1] {
				// signatures are checked together with Release
				listed = false
				break
			}
		}
		if !listed {
			k.newVersion(vs[0], files[0]) // nothing else is checked
		}
		for i, v := range vs[1:] {
			if x.Flag("restart") {
				k.stop()
				if !k.mustStart() {
					return
				}
				k.newVersion(vs[i], first...)
			}
			k.publish("u", v.files)
			vsched.Sleep(21 * time.Second)
			k.newVersion(v, first...)
		}
		k.newVersion(vs[2], append(left, cItem)...)
		x.Outcome("%s", dir)
	})
}

func c09schedule(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	names := [][]string{{"Release", "Release.gpg"}, {"InRelease"}, {"InRelease", "Release", "Release.gpg"}}[x.Free(3, "Release files")]
	prog := [][]string{{"dists/s/" + names[0], cPkg, cItem}, {cPkg, cItem, cItem}}[x.Free(2, "requests")]
	v1, v2 := cver0("1", names...), cver0("2", names...)
	first := x.Flag("first download")
	restart := x.Flag("restart")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		if !first {
			for _, n := range names {
				k.get("u/dists/s/" + n)
			}
			k.get("u/" + cPkg)
			k.get("u/" + cItem)
			if restart {
				k.stop()
				if !k.mustStart() {
					return
				}
			}
			vsched.Sleep(10 * time.Second)
		}
		x.Freeze(false)
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			if k.n < 100 && x.Flag("publish after "+p) {
				k.n = 100
				k.publish("u", v2.files)
			}
		}
		var rs []*cresp
		for _, n := range names {
			rs = append(rs, k.send("GET", "u/dists/s/"+n))
		}
		for _, p := range prog {
			rs = append(rs, k.send("GET", "u/"+p))
		}
		if !k.answered(rs...) {
			return
		}
		x.Freeze(true)
		k.fault = nil
		if first && restart {
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		k.publish("u", v2.files)
		vsched.Sleep(10*time.Second + time.Millisecond)
		var ps []string
		for _, n := range names {
			ps = append(ps, "dists/s/"+n)
		}
		k.newVersion(v2, append(ps, cPkg, cItem, cPkg+".gz", cItem)...)
		x.Outcome("ok")
	})
}

func c09local(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	when := x.Free(2, "failure during") // first download, check
	restart := x.Flag("restart")
	name := []string{"Release", "InRelease"}[x.Free(2, "Release file")]
	names := []string{"Release", "Release.gpg"}
	if name == "InRelease" {
		names = []string{"InRelease"}
	}
	v1, v2, v3 := cver0("1", names...), cver0("2", names...), cver0("3", names...)
	x.World(func() {
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		if when == 0 {
			k.fsFault()
		}
		k.get("u/dists/s/" + name)
		k.get("u/" + cPkg)
		k.get("u/" + cItem)
		if when == 1 {
			k.publish("u", v2.files)
			k.fsFault()
			vsched.Sleep(11 * time.Second)
			k.get("u/" + cPkg)
		}
		k.fs.Fault = nil
		vsched.Sleep(11 * time.Second) // failures are retried at the next check at the latest
		if restart {
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		// cached now at the latest
		if r := k.get("u/dists/s/" + name); r.status != 200 {
			x.Failf("not-repaired", "%s after the failure", r)
			return
		}
		k.publish("u", v3.files)
		vsched.Sleep(11 * time.Second)
		k.newVersion(v3, "dists/s/"+name, cPkg, cItem)
		x.Outcome("ok")
	})
}

// ---------------------------------------------------------------- C12

// c12repo has indices of more than the capacity and items of several sizes.
func c12repo(ver string) *cver {
	key := "c12" + ver
	if cvers[key] == nil {
		r := crepo(ver)
		b := func(c string, n int) string { return strings.Repeat(c, n) }
		r.suites[0].indices[0].items = []ritem{it("pool/a.deb", b("a", 20)), it("pool/b.deb", b("b", 40)), it("pool/c.deb", b(ver, 30)), it("pool/d.deb", b("d", 64))}
		cvers[key] = newCver(r)
	}
	return cvers[key]
}

func c12down(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 3
	depth := 5
	if x.Deep {
		depth = 6
	}
	cur := c12repo("1")
	x.World(func() {
		k.publish("u", cur.files)
		if !k.mustStart() {
			return
		}
		k.get("u/" + cRel)
		k.get("u/" + cPkg)
		// what the cacher must know by now
		sums := map[string]string{}
		learn := func(p string) {
			r := k.get("u/" + p)
			if r.status != 200 {
				return
			}
			for _, l := range cur.lists[p] {
				if string(cur.files[p]) == r.body {
					sums[l] = string(cur.files[l])
				}
			}
		}
		learn(cRel)
		learn(cPkg)
		metas := func() {
			d := k.disk(cmeta)
			for p := range d {
				if k.x.Failed() {
					return
				}
				_ = p
			}
			for _, p := range []string{cRel, cPkg} {
				if _, ok := d["u/"+p]; !ok {
					x.Failf("index-removed", "%s is no longer cached", p)
				}
			}
			used := 0
			for _, b := range k.disk(ccache) {
				used += len(b)
			}
			if used > vsched.GiB {
				x.Failf("capacity", "items of %d bytes are cached, capacity %d", used, vsched.GiB)
			}
		}
		for i := 0; i < depth && !x.Failed(); i++ {
			switch x.Free(9, "step") {
			case 0:
				k.get("u/pool/a.deb")
			case 1:
				k.get("u/pool/b.deb")
			case 2:
				k.get("u/pool/c.deb")
			case 3:
				k.get("u/pool/d.deb")
			case 4:
				learn(cPkg + ".gz")
			case 5:
				k.get("u/pool/none.deb")
			case 6: // bad refresh
				k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) { spoil("503", "", rep, nil) }
				vsched.Sleep(11 * time.Second)
				k.fault = nil
			case 7: // new version
				if cur != c12repo("2") {
					cur = c12repo("2")
					k.publish("u", cur.files)
					vsched.Sleep(11 * time.Second)
					learn(cRel)
					learn(cPkg)
				}
			case 8:
				k.stop()
				if !k.mustStart() {
					return
				}
			}
			metas()
		}
		// nothing can be downloaded any more
		for _, m := range []string{"404", "refused"} {
			k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) { spoil(m, "", rep, nil) }
			vsched.Sleep(11 * time.Second)
			for round := 0; round < 2 && !x.Failed(); round++ {
				for _, dir := range []string{cmeta, ccache} {
					d := k.disk(dir)
					for _, p := range sortedKeys(d) {
						if x.Failed() {
							return
						}
						q := strings.TrimPrefix(p, "u/")
						if s, known := sums[q]; known && s != d[p] {
							continue // outdated
						}
						if !bytes.Equal(cur.files[q], []byte(d[p])) {
							continue
						}
						if _, known := sums[q]; !known && q != cRel && q != cRel+".gpg" {
							continue
						}
						n := k.fetches(p)
						r := k.get(p)
						if r.status != 200 || r.body != d[p] || !isRelease(p) && k.fetches(p) != n {
							x.Failf("unavailable", "%s although it is cached and valid (%d upstream requests)", r, k.fetches(p)-n)
						}
					}
				}
				if round == 0 {
					k.stop()
					if !k.mustStart() {
						return
					}
				}
			}
			metas()
		}
		s := ""
		for _, r := range k.all {
			s += fmt.Sprint(" ", r.status)
		}
		x.Outcome("%d items", len(k.disk(ccache)))
	})
}

func c12faults(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 3
	v := c12repo("1")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v.files)
		if !k.mustStart() {
			return
		}
		for _, p := range []string{cRel, cRel + ".gpg", cPkg, "pool/a.deb"} {
			k.get("u/" + p)
		}
		x.Freeze(false)
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			modes := []string{"", "cut", "cutend", "404", "503", "refused", "s100", "s204", "redirect-loop", "late"}
			if !isRelease(p) {
				modes = append(modes, "corrupt", "short", "longer", "empty", "huge")
			}
			_, q := k.split(r)
			oddAnswer(modes[x.Fault(len(modes), "answer for "+p)], q, r, rep, nil)
		}
		held := map[string]string{}
		check := func() {
			for _, p := range []string{cRel, cRel + ".gpg", cPkg, "pool/a.deb"} {
				if x.Failed() {
					return
				}
				r := k.get("u/" + p)
				if r.status != 200 || r.body != string(v.files[p]) {
					x.Failf("unavailable", "%s although it is cached", r)
				}
				held[p] = r.body
			}
		}
		check()
		k.get("u/" + cPkg + ".gz")
		check()
		k.get("u/pool/c.deb")
		check()
		vsched.Sleep(11 * time.Second)
		check()
		k.get("u/pool/none.deb")
		if x.Flag("restart") && !x.Failed() {
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		check()
		vsched.Sleep(11 * time.Second)
		check()
		x.Outcome("%d", len(k.disk(ccache)))
	})
}

// c12start restarts with a failing system call.
func c12start(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	v1, v2 := c12repo("1"), c12repo("2")
	outdated := x.Flag("outdated index")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		want := map[string]string{}
		for _, p := range []string{cRel, cRel + ".gpg", cPkg, "pool/a.deb"} {
			want[p] = k.get("u/" + p).body
		}
		if outdated {
			// a new Release file, and no new index
			k.publish("u", map[string][]byte{cRel: v2.files[cRel], cRel + ".gpg": v2.files[cRel+".gpg"]})
			vsched.Sleep(11 * time.Second)
			delete(want, cPkg)
			want[cRel] = string(v2.files[cRel])
			want[cRel+".gpg"] = string(v2.files[cRel+".gpg"])
		}
		k.stop()
		x.Freeze(false)
		k.fsFault()
		err := k.start()
		k.fs.Fault = nil
		if err != nil {
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		x.Freeze(true)
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) { rep.Status, rep.Body = 503, nil }
		for round := 0; round < 2; round++ {
			for _, p := range sortedKeys(want) {
				if x.Failed() {
					return
				}
				if r := k.get("u/" + p); r.status != 200 || r.body != want[p] {
					x.Failf("unavailable", "%s although it is cached (failed first: %v)", r, err)
				}
			}
			vsched.Sleep(11 * time.Second)
		}
		// what cached indices list is known
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			if strings.HasPrefix(p, "u/pool/") {
				rep.Status, rep.Body = 200, []byte("something else")
			}
		}
		vsched.Sleep(11 * time.Second)
		if r := k.get("u/pool/b.deb"); r.status == 200 {
			x.Failf("forgotten", "%s contradicts the cached index (failed first: %v)", r, err)
		}
		x.Outcome("%v", err != nil)
	})
}

func c12schedule(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	v := c12repo("1")
	other := []string{"pool/c.deb", cPkg + ".gz", "pool/none.deb"}[x.Free(3, "other request")]
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v.files)
		if !k.mustStart() {
			return
		}
		for _, p := range []string{cRel, cPkg, "pool/a.deb"} {
			k.get("u/" + p)
		}
		if t := 10*time.Second - x.W.Since(); t > 0 {
			vsched.Sleep(t)
		}
		x.Freeze(false)
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			m := []string{"", "cut", "404", "refused"}
			spoil(m[x.Fault(len(m), "answer for "+p)], "", rep, nil)
		}
		rs := []*cresp{k.send("GET", "u/"+other), k.send("GET", "u/"+cPkg), k.send("GET", "u/pool/a.deb"), k.send("GET", "u/"+cRel)}
		if !k.answered(rs...) {
			return
		}
		for _, r := range rs[1:] {
			if p := strings.TrimPrefix(r.path, "u/"); r.status != 200 || r.body != string(v.files[p]) {
				x.Failf("unavailable", "%s although it is cached", r)
			}
		}
		x.Outcome("%d", rs[0].status)
	})
}

// ---------------------------------------------------------------- C15

func c15ver(ver string) *cver {
	key := "c15" + ver
	if cvers[key] == nil {
		r := crepo(ver)
		r.suites[0].note = "version " + ver + "\nFiller: " + strings.Repeat(ver, 40000)
		r.suites[0].indices[0].items = []ritem{it("pool/a.deb", strings.Repeat(ver, 60)), it("pool/b.deb", strings.Repeat("b", 50))}
		cvers[key] = newCver(r)
	}
	return cvers[key]
}

func c15replace(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	mode := x.Free(3, "case") // Release replaced, item evicted, item replaced
	v1, v2 := c15ver("1"), c15ver("2")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		k.get("u/" + cRel)
		k.get("u/" + cPkg)
		k.get("u/pool/a.deb")
		if mode == 2 {
			k.publish("u", v2.files)
			vsched.Sleep(11 * time.Second)
		} else if t := 10*time.Second - x.W.Since(); t > 0 && mode == 0 {
			k.publish("u", v2.files)
			vsched.Sleep(t)
		}
		x.Freeze(false)
		var rs []*cresp
		switch mode {
		case 0:
			rs = []*cresp{k.send("GET", "u/"+cRel), k.send("GET", "u/"+cRel)}
		case 1:
			rs = []*cresp{k.send("GET", "u/pool/a.deb"), k.send("GET", "u/pool/b.deb"), k.send("GET", "u/pool/a.deb")}
		case 2:
			rs = []*cresp{k.send("GET", "u/pool/a.deb"), k.send("GET", "u/"+cPkg), k.send("GET", "u/pool/a.deb")}
		}
		if !k.answered(rs...) {
			return
		}
		for _, r := range rs {
			p := strings.TrimPrefix(r.path, "u/")
			if r.status == 200 && r.body != string(v1.files[p]) && r.body != string(v2.files[p]) {
				x.Failf("mixed", "%s: %d bytes that are no version", r, len(r.body))
			}
			if r.status != 200 && mode != 2 {
				x.Failf("status", "%s", r)
			}
			if r.status == 200 && r.hdr.Get("Content-Length") != fmt.Sprint(len(r.body)) {
				x.Failf("mixed", "%s has Content-Length %s but %d bytes", r, r.hdr.Get("Content-Length"), len(r.body))
			}
		}
		s := ""
		for _, r := range rs {
			s += fmt.Sprint(" ", r.status, " ", r.body[:1])
		}
		x.Outcome("%s", s)
	})
}

func c15broken(x *explore.X) {
	k := newCkit(x)
	k.cfg.CachePeriod = 0
	p := []string{cItem, cRel, cPkg}[x.Free(3, "file")]
	listed := p != cRel && x.Flag("listed")
	v := cver0("1")
	full := v.files[p]
	n := len(full) + 1
	kind := x.Free(4, "kind") // broken; broken, no length; short with the end announced; reset
	c := x.Free(n, "length")
	chunk := []int{0, 1, 7}[x.Free(3, "read size")]
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v.files)
		if !k.mustStart() {
			return
		}
		if listed {
			k.get("u/" + cRel)
			if p == cItem {
				k.get("u/" + cPkg)
			}
		}
		bad := true
		k.fault = func(q string, r *vhttp.Request, rep *vhttp.Reply) {
			if q != "u/"+p || !bad {
				return
			}
			rep.Chunk = chunk
			switch kind {
			case 0:
				rep.CutAt = c + 1
			case 1:
				rep.CutAt = c + 1
				rep.NoLen = true
			case 2:
				rep.Body = rep.Body[:min(c, len(rep.Body))]
			case 3:
				rep.CutAt = c + 1
				rep.BodyDelay = time.Second
			}
		}
		r := k.get("u/" + p)
		if r.status == 200 && (kind != 2 || listed && c < len(full)) {
			x.Failf("truncated", "%s although the transfer broke after %d of %d bytes", r, c, len(full))
		}
		if kind == 2 && c == len(full) && r.status != 200 {
			x.Failf("status", "%s", r)
		}
		if kind == 2 && !listed && (r.status != 200 || r.body != string(full[:min(c, len(full))])) {
			x.Failf("status", "%s is not what the upstream sent", r)
		}
		for _, dir := range []string{cmeta, ccache} {
			for q, b := range k.disk(dir) {
				if q == "u/"+p && r.status != 200 {
					x.Failf("kept", "%d bytes of a broken transfer are cached", len(b))
				}
			}
		}
		bad = false
		vsched.Sleep(time.Second)
		if r.status != 200 {
			if r := k.get("u/" + p); r.status != 200 || r.body != string(full) {
				x.Failf("status", "%s after a broken transfer", r)
			}
		}
		if m := k.temps(); m != "" {
			x.Failf("temp", "temporary file %s is left", m)
		}
		x.Outcome("%d", r.status)
	})
}

// temps returns a file of the cache directories that is no cache file.
func (k *ckit) temps() string {
	for _, dir := range []string{cmeta, ccache} {
		for p := range k.fs.Files(dir) {
			if !strings.HasSuffix(p, cacheSuffix()) {
				return p
			}
		}
	}
	return ""
}

func c15local(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 0
	v1, v2 := c15ver("1"), c15ver("2")
	upd := x.Flag("update")
	restart := x.Flag("restart")
	x.World(func() {
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		ps := []string{cRel, cPkg, "pool/a.deb", "pool/b.deb"}
		if upd {
			x.Freeze(true)
			for _, p := range ps {
				k.get("u/" + p)
			}
			k.publish("u", v2.files)
			x.Freeze(false)
		}
		k.fsFault()
		vsched.Sleep(11 * time.Second)
		for _, p := range ps {
			k.get("u/" + p)
		}
		if restart && !x.Failed() {
			k.fs.Fault = nil
			k.stop()
			if !k.mustStart() {
				return
			}
			for _, p := range ps {
				k.get("u/" + p)
			}
		}
		s := ""
		for _, r := range k.all {
			p := strings.TrimPrefix(r.path, "u/")
			if r.done && r.status == 200 && !r.err && r.body != string(v1.files[p]) && r.body != string(v2.files[p]) {
				// a body that ends early is no complete answer
				if r.hdr.Get("Content-Length") == fmt.Sprint(len(r.body)) {
					x.Failf("mixed", "%s: %d bytes that are no version", r, len(r.body))
				}
			}
			s += fmt.Sprint(" ", r.status)
		}
		x.Outcome("%s", s)
	})
}
