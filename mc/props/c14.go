package props

import (
	"fmt"
	"math"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/cybozu-go/aptutil/cacher"
	cacherprog "github.com/cybozu-go/aptutil/cmd/go-apt-cacher"
	mirrorprog "github.com/cybozu-go/aptutil/cmd/go-apt-mirror"
	"github.com/cybozu-go/aptutil/mirror"
	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
	"vmc/vwell"
)

func init() {
	sc := func(name, doc string, weight int, run func(x *explore.X)) *explore.Scenario {
		return &explore.Scenario{Name: name, Doc: doc, Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: weight, Run: run}
	}
	assume := append([]string{"configurations are TOML documents decoded as the programs do, including their check for unknown keys; the directories can be created", "cache_capacity is in units of 64 bytes instead of 1 GiB"}, cacherAssume...)
	register("C14", "model_checking", assume,
		sc("cacher-numbers", "every combination of boundary values of check_interval, cache_period, cache_capacity and max_conns: rejected exactly if one is unusable, else all of them are obeyed", 3, c14numbers),
		sc("cacher-dirs", "every pair of directories out of relative, equal, nested, unclean and similarly named ones", 2, c14dirs),
		sc("cacher-mapping", "every prefix and URL of two lists, alone and next to a healthy mapping", 2, c14mapping),
		sc("cacher-types", "wrong types, unknown keys, the sample configuration and the documented defaults", 1, c14types),
		sc("cacher-address", "listening addresses, usable or not, and none: the program listens there or ends with an error", 0, c14address),
		sc("mirror-values", "every combination of directory, max_conns and URL", 2, c14mirrorValues),
		sc("mirror-suites", "every combination of up to three suites (flat and not), sections, architectures and sources: rejected exactly if documented, else mirrored completely", 3, c14suites),
		sc("mirror-several", "three mirrors of which one has an unusable configuration of every kind, asked for or not: nothing is fetched, published trees stay", 2, c14several),
		sc("mirror-types", "wrong types, unknown keys, the sample configuration and the documented defaults", 1, c14mirrorTypes),
	)
}

const maxSeconds = int(math.MaxInt64 / int64(time.Second))

// field is a line of a document; "" leaves the key out.
func field(key string, v interface{}) string {
	switch v := v.(type) {
	case nil:
		return ""
	case string:
		return key + " = " + tomlString(v) + "\n"
	case []string:
		var l []string
		for _, s := range v {
			l = append(l, tomlString(s))
		}
		return key + " = [" + strings.Join(l, ", ") + "]\n"
	}
	return fmt.Sprintf("%s = %v\n", key, v)
}

func tomlString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < ' ':
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// decodeCacher does what the program does before NewCacher.
func decodeCacher(doc string) (*cacher.Config, error) {
	c := cacher.NewConfig()
	md, err := toml.Decode(doc, &c)
	if err != nil {
		return nil, err
	}
	if len(md.Undecoded()) > 0 {
		return nil, fmt.Errorf("invalid config keys: %v", md.Undecoded())
	}
	return c, nil
}

func decodeMirror(doc string) (*mirror.Config, error) {
	c := mirror.NewConfig()
	md, err := toml.Decode(doc, c)
	if err != nil {
		return nil, err
	}
	if len(md.Undecoded()) > 0 {
		return nil, fmt.Errorf("invalid config keys: %v", md.Undecoded())
	}
	return c, nil
}

// c14start starts the cacher with a document and compares the outcome with
// valid; it returns true if it runs.
func c14start(x *explore.X, k *ckit, doc string, valid bool) bool {
	cfg, err := decodeCacher(doc)
	if err == nil {
		k.cfg = cfg
	}
	if cacherprog.Covered {
		err = k.startProgram(doc)
		if err == exitError(0) {
			x.Failf("exit", "the program ends without an error with\n%s", doc)
		}
	} else if err == nil {
		err = k.start()
	}
	switch {
	case err == nil && !valid:
		x.Failf("accepted", "an unusable configuration is accepted:\n%s", doc)
	case err != nil && valid:
		x.Failf("rejected", "a usable configuration is rejected (%v):\n%s", err, doc)
	case err == nil && k.p != nil && k.p.Exited:
		x.Failf("exit", "the program exits:\n%s", doc)
	}
	if err != nil {
		vsched.Sleep(time.Hour)
		if n := len(k.up.Log); n > 0 {
			x.Failf("started", "%d upstream requests although the configuration is rejected:\n%s", n, doc)
		}
	}
	return err == nil && !x.Failed()
}

func c14numbers(x *explore.X) {
	pick := func(key string, vals ...interface{}) interface{} { return vals[x.Free(len(vals), key)] }
	num := func(v interface{}, def int) int {
		if v == nil {
			return def
		}
		return v.(int)
	}
	// limits between the real and the scaled one are not explored
	const maxCap, overCap = math.MaxUint64 >> 31, math.MaxUint64/vsched.GiB + 1
	ci := pick("check_interval", nil, -1, 0, 1, 600, maxSeconds, maxSeconds+1, math.MaxInt64, math.MinInt64)
	cp := pick("cache_period", nil, -1, 0, 3, maxSeconds, maxSeconds+1, math.MaxInt64)
	cc := pick("cache_capacity", nil, -1, 0, 1, 2, maxCap, overCap, math.MaxInt64)
	mc := pick("max_conns", nil, math.MinInt64, -1, 0, 1, 2, 10)
	k := newCkit(x)
	interval, period, capacity, conns := num(ci, 600), num(cp, 3), num(cc, 1), num(mc, 10)
	valid := interval > 0 && interval <= maxSeconds && period >= 0 && period <= maxSeconds && capacity > 0 && capacity <= maxCap && conns >= 0
	doc := field("check_interval", ci) + field("cache_period", cp) + field("cache_capacity", cc) + field("max_conns", mc) +
		field("meta_dir", cmeta) + field("cache_dir", ccache) + "[mapping]\n" + field("u", "http://up-u/base/u")
	x.World(func() {
		k.publish("u", cver0("1").files)
		if !c14start(x, k, doc, valid) {
			x.Outcome("rejected")
			return
		}
		c14works(x, k, doc, interval, period, capacity, conns)
		x.Outcome("works")
	})
}

// c14works drives an accepted configuration.
func c14works(x *explore.X, k *ckit, doc string, interval, period, capacity, conns int) {
	v1, v2 := cver0("1"), cver0("2")
	want := func(what string, v *cver, ps ...string) {
		for _, p := range ps {
			if x.Failed() {
				return
			}
			if r := k.get("u/" + p); r.status != 200 || r.body != string(v.files[p]) {
				x.Failf("does-not-work", "%s: %s with\n%s", what, r, doc)
			}
		}
	}
	// all connections that are allowed are used, and no more
	k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) { rep.Delay = time.Millisecond }
	var rs []*cresp
	n := 12
	for i := 0; i < n; i++ {
		rs = append(rs, k.send("GET", fmt.Sprintf("u/none%d", i)))
	}
	if !k.answered(rs...) {
		return
	}
	most := conns
	if conns == 0 || conns > n {
		most = n
	}
	if m := k.up.Max("up-u"); m != most {
		x.Failf("conns", "at most %d connections at once instead of %d with\n%s", m, most, doc)
	}
	// upstream starts to have it, but the failure is remembered
	k.fault = nil
	before := k.fetches("u/none0")
	k.get("u/none0")
	if again := k.fetches("u/none0") > before; again != (period == 0) {
		x.Failf("period", "a failure is remembered: %v with\n%s", !again, doc)
	}
	vsched.Sleep(10 * time.Second)
	before = k.fetches("u/none0")
	k.get("u/none0")
	if again := k.fetches("u/none0") > before; again != (period < 10) {
		x.Failf("period", "a failure is remembered for 10 seconds: %v with\n%s", !again, doc)
	}
	want("first request", v1, cRel, cPkg, cItem)
	at := k.x.W.Since()
	reqs := len(k.up.Log)
	want("second request", v1, cRel, cPkg, cItem)
	if len(k.up.Log) != reqs && interval > 1 {
		x.Failf("does-not-work", "cached files are fetched again with\n%s", doc)
	}
	// items that do not fit replace each other, others stay
	c := 0
	for _, b := range k.disk(ccache) {
		c += len(b)
	}
	want("another item", v1, cKeep)
	total := 0
	for _, b := range k.disk(ccache) {
		total += len(b)
	}
	sum := len(v1.files[cItem]) + len(v1.files[cKeep])
	if total != sum {
		x.Failf("capacity", "%d bytes of items are cached instead of %d with\n%s", total, sum, doc)
	}
	k.cur["u"]["pool/big"] = []byte(strings.Repeat("b", vsched.GiB-sum+1))
	k.cur["u"]["pool/more"] = []byte(strings.Repeat("b", vsched.GiB))
	for i, p := range []string{"pool/big", "pool/more"} {
		k.get("u/" + p)
		total = 0
		for _, b := range k.disk(ccache) {
			total += len(b)
		}
		sum += len(k.cur["u"][p])
		// items are cached until one does not fit
		if uint64(total) > uint64(capacity)*uint64(vsched.GiB) {
			x.Failf("capacity", "%d bytes are cached with\n%s", total, doc)
		} else if uint64(sum) <= uint64(capacity)*uint64(vsched.GiB) && total != sum {
			x.Failf("capacity", "%d bytes are cached instead of %d with\n%s", total, sum, doc)
		} else if i == 0 && capacity == 1 && total == sum {
			x.Failf("capacity", "nothing was evicted with\n%s", doc)
		}
	}
	delete(k.cur["u"], "pool/big")
	delete(k.cur["u"], "pool/more")
	// checks are made when they are due
	k.publish("u", v2.files)
	if interval > 20 {
		vsched.Sleep(19 * time.Second)
		if r := k.get("u/" + cRel); interval > 100 && r.body != string(v1.files[cRel]) && k.x.W.Since()-at < 100*time.Second {
			x.Failf("interval", "Release is checked too early with\n%s", doc)
		}
	}
	if interval <= 600 {
		vsched.Sleep(time.Duration(interval)*time.Second + 50*time.Millisecond)
		want("after the check interval", v2, cRel, cPkg, cItem)
	}
}

func c14dirs(x *explore.X) {
	dirs := []string{"/srv/meta", "/srv/items", "/srv/meta/", "/srv//meta", "/srv/x/../meta", "/srv/meta2", "/srv/meta/sub", "/srv/meta/..", "/srv", "/", "/srv/met", "srv/meta", "./meta", "meta", "", ".", "..", "../srv/meta", "/new/a/b", "/new/a/b/c", "/srv/..meta", "/srv/meta/../../srv/items/."}
	m, c := dirs[x.Free(len(dirs), "meta_dir")], dirs[x.Free(len(dirs), "cache_dir")]
	if x.Flag("no meta_dir") {
		m = ""
	}
	k := newCkit(x)
	below := func(a, b string) bool { return a == b || b == "/" || strings.HasPrefix(a, b+"/") }
	cm, cc := path.Clean(m), path.Clean(c)
	valid := path.IsAbs(m) && path.IsAbs(c) && !below(cm, cc) && !below(cc, cm)
	doc := field("cache_dir", c) + "[mapping]\n" + field("u", "http://up-u/base/u")
	if m != "" {
		doc = field("meta_dir", m) + doc
	}
	x.World(func() {
		putSentinels(k.fs)
		k.publish("u", cver0("1").files)
		if !c14start(x, k, doc, valid) {
			x.Outcome("rejected")
			return
		}
		v := cver0("1")
		for i := 0; i < 2; i++ {
			for _, p := range []string{cRel, cPkg, cItem} {
				if r := k.get("u/" + p); r.status != 200 || r.body != string(v.files[p]) {
					x.Failf("does-not-work", "%s with\n%s", r, doc)
					return
				}
			}
			// everything is in its directory, also for the next start
			for _, d := range []struct {
				dir string
				ps  []string
			}{{cm, []string{cRel, cPkg}}, {cc, []string{cItem}}} {
				got := k.disk(d.dir)
				for _, p := range d.ps {
					if got["u/"+p] != string(v.files[p]) {
						x.Failf("wrong-dir", "%s is not in %s with\n%s", p, d.dir, doc)
						return
					}
				}
			}
			if n := len(k.up.Log); n != 3 {
				x.Failf("does-not-work", "%d fetches with\n%s", n, doc)
				return
			}
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		x.Outcome("works")
	})
}

var c14prefixes = []string{"u", "ubuntu-security", "a.b", "a_b", "0", "-", "_", "...", ".x", "..x", ".", "..", "", "/", "a/b", "/a", "a/", "A", "aB", "ä", "a b", "a\n", "\na", "a%2f", "a:b", "*", "^a$", "a+b", "a~", "x.", strings.Repeat("p", 255-6)}

var c14urls = []string{"http://h/base", "http://h/base/", "http://h", "http://h/", "https://h/base", "HTTP://h/base", "Https://h/base/", "http://h:8080/base", "http://[::1]/base", "http://user:pw@h/base", "http://h/base?q=1", "http://h/base#f", "http://h/a%20b",
	"ftp://h/base", "file:///base", "h/base", "//h/base", "/base", "", "http:", "http:/", "http://", "http:///base", "http:h/base", "http://?x", "http://#x", "httpx://h/base", "xhttp://h/base", "mailto:a@b", "http//h/base", "http;//h", "http://h:port/x", "http://[::1/base", "http://h/%zz", "ht tp://h/", "http://h\n/x", "cdrom:x", "rsync://h/base", "http+unix://h/b", ":", "%", "http ://h"}

func c14mapping(x *explore.X) {
	prefix := c14prefixes[0]
	raw := c14urls[0]
	if x.Flag("vary") {
		prefix = c14prefixes[x.Free(len(c14prefixes), "prefix")]
	} else {
		raw = c14urls[x.Free(len(c14urls), "url")]
	}
	if x.Deep {
		prefix = c14prefixes[x.Free(len(c14prefixes), "prefix")]
		raw = c14urls[x.Free(len(c14urls), "url")]
	}
	healthy := x.Flag("next to a healthy one")
	restart := x.Flag("with data of an earlier start")
	k := newCkit(x)
	validPrefix := prefix != "" && prefix != "." && prefix != ".."
	for _, c := range prefix {
		validPrefix = validPrefix && (c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-')
	}
	u, err := url.Parse(raw)
	validURL := err == nil && (u.Scheme == "http" || u.Scheme == "https") && u.Host != ""
	doc := field("meta_dir", cmeta) + field("cache_dir", ccache) + "[mapping]\n" + field(tomlString(prefix), raw)
	if healthy {
		doc += field("zz", "http://up-zz/base/zz")
	}
	files := cver0("1").files
	k.up.Serve = func(r *vhttp.Request) vhttp.Reply {
		for p, b := range files {
			if strings.HasSuffix(r.Path, "/"+p) {
				return vhttp.Reply{Status: 200, Body: b}
			}
		}
		return vhttp.Reply{Status: 404}
	}
	x.World(func() {
		if restart {
			if !c14start(x, k, field("meta_dir", cmeta)+field("cache_dir", ccache)+"[mapping]\n"+field("zz", "http://up-zz/base/zz")+field("old", "http://up-zz/base/zz"), true) {
				return
			}
			k.get("zz/" + cRel)
			k.get("old/" + cRel)
			k.get("old/" + cItem)
			k.stop()
			k.up.Log = nil
		}
		if !c14start(x, k, doc, validPrefix && validURL) {
			x.Outcome("rejected")
			return
		}
		pre := []string{prefix}
		if healthy {
			pre = append(pre, "zz")
		}
		for _, p := range pre {
			for _, f := range []string{cRel, cPkg, cItem, cItem} {
				if r := k.get(p + "/" + f); r.status != 200 || r.body != string(files[f]) {
					x.Failf("does-not-work", "%s with\n%s", r, doc)
				}
			}
		}
		for _, l := range k.up.Log {
			if h := strings.ToLower(l.Host); h != u.Host && h != "up-zz" {
				x.Failf("host", "request to %s with\n%s", l.Raw, doc)
			}
		}
		vsched.Sleep(601 * time.Second)
		if r := k.get("unmapped/x"); r.status != 404 {
			x.Failf("does-not-work", "%s with\n%s", r, doc)
		}
		x.Outcome("works")
	})
}

func sample(name string) (string, error) {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VMC_WORK"), "src", name))
	return string(b), err
}

func c14address(x *explore.X) {
	list := []struct{ conf, addr string }{
		{"", ":3142"}, {field("listen_address", ""), ":3142"}, {field("listen_address", ":3142"), ":3142"}, {field("listen_address", ":80"), ":80"},
		{field("listen_address", "127.0.0.1:8080"), "127.0.0.1:8080"}, {field("listen_address", "[::1]:3143"), "[::1]:3143"}, {field("listen_address", "0.0.0.0:1"), "0.0.0.0:1"},
		{field("listen_address", "127.0.0.1"), "-"}, {field("listen_address", ":99999"), "-"}, {field("listen_address", "1:2:3"), "-"}, {field("listen_address", ":no-such-port"), "-"},
	}
	l := list[x.Free(len(list), "listen_address")]
	k := newCkit(x)
	doc := l.conf + field("meta_dir", cmeta) + field("cache_dir", ccache) + "[mapping]\n" + field("u", "http://up-u/base/u")
	x.World(func() {
		if !cacherprog.Covered {
			x.Outcome("not covered")
			return
		}
		k.publish("u", cver0("1").files)
		if !c14start(x, k, doc, l.addr != "-") {
			x.Outcome("rejected")
			return
		}
		if s, _ := vwell.Server(k.p); s.Server.Addr != l.addr {
			x.Failf("address", "the program listens at %q instead of %q with\n%s", s.Server.Addr, l.addr, doc)
		}
		if r := k.get("u/" + cRel); r.status != 200 {
			x.Failf("does-not-work", "%s with\n%s", r, doc)
		}
		x.Outcome("works")
	})
}

func c14types(x *explore.X) {
	base := func() string { return field("meta_dir", cmeta) + field("cache_dir", ccache) }
	mapping := "[mapping]\n" + field("u", "http://up-u/base/u")
	bad := []string{
		`check_interval = "600"`, `check_interval = 1.5`, `check_interval = true`, `check_interval = [1]`, `check_interval = 9223372036854775808`,
		`cache_period = "3"`, `cache_capacity = "1GiB"`, `cache_capacity = 0.5`, `max_conns = "10"`, `meta_dirs = "/x"`, `capacity = 1`, `interval = 1`, `Xmax_conns = 1`, `listen_address = 3142`, `unknown = 1`, `[unknown]`, `[log]` + "\n" + `unknown = 1`, `check_interval`, `check_interval =`, "max_conns = 1\nmax_conns = 2",
	}
	k := newCkit(x)
	i := x.Free(len(bad)+4, "document")
	x.World(func() {
		k.publish("u", cver0("1").files)
		switch n := i - len(bad); {
		case i < len(bad):
			doc := base() + bad[i] + "\n" + mapping
			if strings.HasPrefix(bad[i], "[") {
				doc = base() + mapping + bad[i] + "\n"
			}
			c14start(x, k, doc, false)
		case n == 0: // defaults
			c := cacher.NewConfig()
			got := fmt.Sprintf("%s %d %d %d %d", c.Addr, c.CheckInterval, c.CachePeriod, c.CacheCapacity, c.MaxConns)
			if want := ":3142 600 3 1 10"; got != want {
				x.Failf("defaults", "defaults are %s instead of %s", got, want)
			}
			if c14start(x, k, base()+mapping, true) {
				c14works(x, k, "defaults", 600, 3, 1, 10)
			}
		case n == 1: // no mapping at all
			if c14start(x, k, base(), true) {
				if r := k.get("u/x"); r.status != 404 {
					x.Failf("does-not-work", "%s without mapping", r)
				}
			}
		case n == 2: // directories are missing
			c14start(x, k, mapping, false)
			c14start(x, k, field("meta_dir", cmeta)+mapping, false)
			c14start(x, k, field("cache_dir", cmeta)+mapping, false)
		case n == 3:
			doc, err := sample("cmd/go-apt-cacher/go-apt-cacher.toml")
			if err != nil {
				x.Outcome("no sample")
				return
			}
			files := cver0("1").files
			k.up.Serve = func(r *vhttp.Request) vhttp.Reply {
				if b, ok := files[strings.TrimPrefix(r.Path, "/ubuntu/")]; ok && (r.Host == "archive.ubuntu.com" || r.Host == "security.ubuntu.com") {
					return vhttp.Reply{Status: 200, Body: b}
				}
				return vhttp.Reply{Status: 404}
			}
			if c14start(x, k, doc, true) {
				for _, p := range []string{"ubuntu/", "security/"} {
					for _, f := range []string{cRel, cPkg, cItem} {
						if r := k.get(p + f); r.status != 200 || r.body != string(files[f]) {
							x.Failf("does-not-work", "%s with the sample configuration", r)
						}
					}
				}
			}
		}
		x.Outcome("ok")
	})
}

// ---------------------------------------------------------------- mirror

func mirrorSection(id string, u interface{}, suites, sections, archs interface{}, source interface{}) string {
	return "[mirror." + tomlString(id) + "]\n" + field("url", u) + field("suites", suites) + field("sections", sections) + field("architectures", archs) + field("mirror_source", source)
}

// c14mirror runs the mirror program with a document.
func c14mirror(x *explore.X, k *mkit, doc string, ids ...string) (err error, decoded bool) {
	cfg, err := decodeMirror(doc)
	if decoded = err == nil; decoded {
		k.cfg = cfg
	}
	if mirrorprog.Covered {
		err = k.runProgram(doc, ids...)
	} else if decoded {
		err = k.run(ids...)
	}
	if err == errKilled {
		x.Failf("exit", "the program is ended with\n%s", doc)
	}
	return err, decoded
}

func (k *mkit) judgeRejected(doc string, err error) {
	if err == nil {
		k.x.Failf("accepted", "an unusable configuration is accepted:\n%s", doc)
	} else if n := len(k.up.Log); n > 0 {
		k.x.Failf("started", "%d upstream requests although the configuration is rejected (%v):\n%s", n, err, doc)
	}
}

func c14mirrorValues(x *explore.X) {
	dirs := []interface{}{mdir, mdir + "/", "/srv/../srv//mirror", "/srv/missing", "srv/mirror", "./mirror", "mirror", "", ".", nil}
	d := dirs[x.Free(len(dirs), "dir")]
	conns := []interface{}{nil, -1, math.MinInt64, 0, 1, 2, 10, 1000}
	c := conns[x.Free(len(conns), "max_conns")]
	urls := []interface{}{"http://up/m", "http://up/m/", "https://up/m", "HTTP://up/m/", "http://up:80/m", nil, "", "ftp://up/m", "file:///m", "up/m", "//up/m", "/m", "http//up/m", "httpx://up/m", "http://up/%zz", "http://up:port/m", ":", "cdrom:m"}
	u := urls[x.Free(len(urls), "url")]
	fresh := x.Flag("first run")
	k := newMkit(x, 2, m13spec("m"))
	doc := field("dir", d) + field("max_conns", c) + mirrorSection("m", u, []string{"s"}, []string{"main"}, []string{"amd64"}, nil)
	n, _ := c.(int)
	if c == nil {
		n = 10
	}
	validURL := false
	if s, ok := u.(string); ok {
		p, err := url.Parse(s)
		validURL = err == nil && (p.Scheme == "http" || p.Scheme == "https")
	}
	ds, _ := d.(string)
	valid := path.IsAbs(ds) && ds != "/srv/missing" && n >= 0 && validURL
	x.World(func() {
		old := m13ver("m", "1", false)
		if !fresh {
			prep(k, one("m", old))
			k.up.Log = nil
		}
		k.fs.PutDir("/srv/other")
		putSentinels(k.fs)
		out := outside(k.fs)
		before := k.tree("m")
		ver := m13ver("m", "2", false)
		k.cur = one("m", ver)
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) { rep.Delay = time.Millisecond }
		err, _ := c14mirror(x, k, doc)
		if o := outside(k.fs); o != out {
			x.Failf("escape", "something outside of the mirror directory changed: %s with\n%s", diffLines(out, o), doc)
		}
		if !valid {
			k.judgeRejected(doc, err)
			if t := k.tree("m"); !sameTree(t, before) {
				x.Failf("changed", "the published mirror changed: %s with\n%s", diffTree(t, before), doc)
			}
			x.Outcome("rejected")
			return
		}
		if err != nil {
			x.Failf("rejected", "a run with a usable configuration fails: %v\n%s", err, doc)
		} else if t := k.tree("m"); !sameTree(t, ver.want) {
			x.Failf("does-not-work", "%s with\n%s", diffTree(t, ver.want), doc)
		}
		if m := k.up.Max("m"); n > 0 && m > n {
			x.Failf("conns", "%d connections at once with\n%s", m, doc)
		} else if m < 2 && n != 1 {
			x.Failf("conns", "one connection at once only with\n%s", doc)
		}
		x.Outcome("works")
	})
}

// c14repo has flat and other suites.
func c14repo() *rrepo {
	suite := func(dir, name string) rsuite {
		return rsuite{dir: dir, names: []string{"Release"}, note: name, indices: []rindex{
			{rel: "main/binary-amd64/Packages", items: []ritem{deb("m", "a-"+name, "1")}},
			{rel: "main/binary-i386/Packages", items: []ritem{deb("m", "i-"+name, "1")}},
			{rel: "contrib/binary-all/Packages", items: []ritem{deb("m", "c-"+name, "1")}},
		}}
	}
	flat := func(dir, name string) rsuite {
		return rsuite{dir: dir, names: []string{"InRelease"}, note: name, indices: []rindex{
			{rel: "Packages", items: []ritem{{"debs/f-" + name, "flat " + name}}},
		}}
	}
	return &rrepo{suites: []rsuite{suite("dists/s", "s"), suite("dists/t/updates", "t"), flat(".", "root"), flat("a/b", "ab")}}
}

func c14suites(x *explore.X) {
	alphabet := []string{"s", "t/updates", "/", "./", "a/b/"}
	var suites []string
	n := x.Free(4, "suites")
	for i := 0; i < n; i++ {
		suites = append(suites, alphabet[x.Free(len(alphabet), "suite")])
	}
	var sections, archs, source, conns interface{}
	sections = [][]string{nil, {}, {"main"}, {"main", "contrib"}}[x.Free(4, "sections")]
	archs = [][]string{nil, {}, {"amd64"}, {"i386", "amd64"}}[x.Free(4, "architectures")]
	src := x.Free(3, "sources")
	if src > 0 {
		source = src == 2
	}
	conns = x.Free(2, "max_conns")
	sp := &mspec{id: "m", suites: suites, sections: sections.([]string), archs: archs.([]string), source: src == 2}
	if sp.sections == nil {
		sections = nil
	}
	if sp.archs == nil {
		archs = nil
	}
	var st interface{}
	if n > 0 || x.Flag("empty list") {
		st = append([]string{}, suites...)
	}
	k := newMkit(x, 2, sp)
	doc := field("dir", mdir) + field("max_conns", conns) + mirrorSection("m", "http://up/m", st, sections, archs, source)
	valid := n > 0
	dirs := map[string]bool{}
	double := false
	for _, s := range suites {
		flat := strings.HasSuffix(s, "/")
		valid = valid && flat == strings.HasSuffix(suites[0], "/")
		if flat && (len(sp.sections) > 0 || len(sp.archs) > 0) {
			valid = false
		}
		double = double || dirs[suiteDir(s)]
		dirs[suiteDir(s)] = true
	}
	x.World(func() {
		r := c14repo()
		v := &mver{repo: r, files: r.files()}
		if valid {
			v.want = expected(sp, r)
		}
		k.cur = one("m", v)
		err, _ := c14mirror(x, k, doc)
		switch {
		case !valid:
			k.judgeRejected(doc, err)
			if t := k.tree("m"); t != nil {
				x.Failf("changed", "something is published with\n%s", doc)
			}
			x.Outcome("rejected")
		case double && err != nil:
			// a suite configured twice may be rejected
			if t := k.tree("m"); t != nil {
				x.Failf("changed", "something is published although the run fails with\n%s", doc)
			}
			x.Outcome("double")
		case err != nil:
			x.Failf("rejected", "a run with a usable configuration fails: %v\n%s", err, doc)
		default:
			if t := k.tree("m"); !sameTree(t, v.want) {
				x.Failf("does-not-work", "%s with\n%s", diffTree(t, v.want), doc)
			}
			x.Outcome("works")
		}
	})
}

func c14several(x *explore.X) {
	good := func(id string) string {
		return mirrorSection(id, "http://up/"+id, []string{"s"}, []string{"main"}, []string{"amd64"}, nil)
	}
	s, m, a := []string{"s"}, []string{"main"}, []string{"amd64"}
	bad := []string{
		mirrorSection("b", nil, s, m, a, nil), mirrorSection("b", "http://up/b", nil, m, a, nil), mirrorSection("b", "http://up/b", []string{}, m, a, nil),
		mirrorSection("b", "http://up/b", []string{"s", "x/"}, nil, nil, nil), mirrorSection("b", "http://up/b", []string{"x/", "s"}, nil, nil, nil),
		mirrorSection("b", "http://up/b", []string{"x/", "y/", "s"}, nil, nil, nil),
		mirrorSection("b", "http://up/b", []string{"/"}, m, nil, nil), mirrorSection("b", "http://up/b", []string{"/"}, nil, a, nil),
		mirrorSection("B", "http://up/b", s, m, a, nil), mirrorSection("b.c", "http://up/b", s, m, a, nil), mirrorSection("", "http://up/b", s, m, a, nil),
		"", // asked for but not configured
		mirrorSection("b", "ftp://up/b", s, m, a, nil), mirrorSection("b", "", s, m, a, nil),
	}
	i := x.Free(len(bad), "unusable one")
	id := "b"
	switch i {
	case 8:
		id = "B"
	case 9:
		id = "b.c"
	case 10:
		id = ""
	}
	decodes := i < 12
	ids := [][]string{nil, {id}, {id, "m", "n"}, {"m", id, "n"}, {"m", "n", id}, {"m", "n"}, {"n"}}[x.Free(7, "asked for")]
	first := x.Flag("first in the file")
	fresh := x.Free(3, "published before") // none, m, both
	k := newMkit(x, 2, m13spec("m"), m13spec("n"))
	doc := field("dir", mdir)
	if first {
		doc += bad[i] + good("m") + good("n")
	} else {
		doc += good("m") + good("n") + bad[i]
	}
	asked := ids == nil && i != 11
	for _, a := range ids {
		asked = asked || a == id
	}
	x.World(func() {
		old := map[string]*mver{}
		for _, id := range []string{"m", "n"}[:fresh] {
			old[id] = m13ver(id, "1", false)
		}
		if fresh > 0 {
			prep(k, old)
			k.up.Log = nil
		}
		before := map[string]map[string]string{"m": k.tree("m"), "n": k.tree("n")}
		top := strings.Join(k.top(), " ")
		k.cur = map[string]*mver{"m": m13ver("m", "2", false), "n": m13ver("n", "2", false), "b": m13ver("b", "2", false)}
		err, _ := c14mirror(x, k, doc, ids...)
		if asked || !decodes {
			k.judgeRejected(fmt.Sprintf("%s(asked for %q)", doc, ids), err)
			for id, b := range before {
				if t := k.tree(id); !sameTree(t, b) {
					x.Failf("changed", "the published mirror %s changed: %s (asked for %q) with\n%s", id, diffTree(t, b), ids, doc)
				}
			}
			if t := strings.Join(k.top(), " "); fresh > 0 && t != top {
				x.Failf("changed", "the mirror directory has %q, had %q (asked for %q) with\n%s", t, top, ids, doc)
			}
			x.Outcome("rejected")
			return
		}
		if err != nil {
			x.Failf("rejected", "the run fails because of a mirror nobody asked for: %v\n%s", err, doc)
		}
		want := map[string]bool{"m": true, "n": true}
		if len(ids) == 1 {
			want["m"] = false
		}
		for id, b := range before {
			if want[id] {
				b = k.cur[id].want
			}
			if t := k.tree(id); !sameTree(t, b) && !x.Failed() {
				x.Failf("does-not-work", "mirror %s: %s (asked for %q) with\n%s", id, diffTree(t, b), ids, doc)
			}
		}
		x.Outcome("works")
	})
}

func c14mirrorTypes(x *explore.X) {
	section := mirrorSection("m", "http://up/m", []string{"s"}, []string{"main"}, []string{"amd64"}, nil)
	bad := []string{
		`max_conns = "10"`, `max_conns = 1.5`, `max_conns = 9223372036854775808`, `dir = 1`, `directory = "/x"`, `unknown = 1`, `conns = 1`, "max_conns = 1\nmax_conns = 2", `mirror = 1`, `[mirrors.m]`,
		section + "suite = [\"s\"]", section + "arch = 1", section + "section = []", section + "source = true", "[mirror.m]\nurl = 1", "[mirror.m]\nurl = [\"http://up/m\"]", "[mirror.m]\nsuites = \"s\"", "[mirror.m]\nsections = \"s\"", "[mirror.m]\narchitectures = \"s\"", "[mirror.m]\nmirror_source = 1", "[mirror.m]\nmirror_source = \"true\"",
	}
	i := x.Free(len(bad)+3, "document")
	k := newMkit(x, 2, m13spec("m"))
	x.World(func() {
		ver := m13ver("m", "1", false)
		k.cur = one("m", ver)
		switch n := i - len(bad); {
		case i < len(bad):
			doc := field("dir", mdir) + bad[i] + "\n"
			if !strings.Contains(doc, "[mirror.") {
				doc += section
			}
			err, _ := c14mirror(x, k, doc)
			k.judgeRejected(doc, err)
		case n == 0:
			if c := mirror.NewConfig(); c.MaxConns != 10 {
				x.Failf("defaults", "max_conns is %d by default instead of 10", c.MaxConns)
			}
			if err, _ := c14mirror(x, k, field("dir", mdir)+section); err != nil || !sameTree(k.tree("m"), ver.want) {
				x.Failf("does-not-work", "%v", err)
			}
		case n == 1: // nothing to do
			if err, _ := c14mirror(x, k, field("dir", mdir)); err != nil {
				x.Failf("rejected", "a run without mirrors fails: %v", err)
			}
		case n == 2:
			doc, err := sample("cmd/go-apt-mirror/mirror.toml")
			if err != nil {
				x.Outcome("no sample")
				return
			}
			cfg, err := decodeMirror(doc)
			if err != nil {
				x.Failf("rejected", "the sample configuration is rejected: %v", err)
				return
			}
			cfg.Dir = mdir
			k.cfg = cfg
			for _, mc := range cfg.Mirrors {
				if err := mc.Check(); err != nil {
					x.Failf("rejected", "the sample configuration is rejected: %v", err)
				}
			}
			// every suite of the sample exists
			k.up.Serve = func(r *vhttp.Request) vhttp.Reply {
				p := strings.TrimPrefix(r.Path, "/ubuntu/")
				d := path.Dir(path.Dir(p) + "/x")
				if b, ok := c14sampleRepo(d)[p]; ok {
					return vhttp.Reply{Status: 200, Body: b}
				}
				for _, s := range []string{"trusty", "trusty-updates", "trusty-security"} {
					if b, ok := c14sampleRepo("dists/" + s)[p]; ok {
						return vhttp.Reply{Status: 200, Body: b}
					}
				}
				return vhttp.Reply{Status: 404}
			}
			if err := k.run(); err != nil {
				x.Failf("does-not-work", "a run with the sample configuration fails: %v", err)
				return
			}
			var l []string
			for _, id := range []string{"ubuntu", "security"} {
				for p := range k.tree(id) {
					if strings.HasPrefix(p, "pool/") {
						l = append(l, id+":"+p)
					}
				}
			}
			sort.Strings(l)
			if got, want := strings.Join(l, " "), "security:pool/trusty-security ubuntu:pool/trusty ubuntu:pool/trusty-updates"; got != want {
				x.Failf("does-not-work", "the sample configuration mirrors %s instead of %s", got, want)
			}
		}
		x.Outcome("ok")
	})
}

var c14samples = map[string]map[string][]byte{}

func c14sampleRepo(dir string) map[string][]byte {
	if !strings.HasPrefix(path.Base(dir), "trusty") || path.Dir(dir) != "dists" {
		return nil
	}
	if c14samples[dir] == nil {
		name := path.Base(dir)
		r := &rrepo{suites: []rsuite{{dir: dir, names: []string{"Release", "InRelease"}, note: name, indices: []rindex{
			{rel: "main/binary-amd64/Packages", items: []ritem{{"pool/" + name, "item of " + name}}},
			{rel: "main/binary-arm64/Packages", items: []ritem{{"pool/not-" + name, "other item of " + name}}},
		}}}}
		c14samples[dir] = r.files()
	}
	return c14samples[dir]
}
