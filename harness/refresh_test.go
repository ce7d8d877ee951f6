package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// listVersion makes the text of version v of a list: n numbered lines.
func listVersion(v, n int) []byte {
	var b bytes.Buffer
	for k := 1; k <= n; k++ {
		fmt.Fprintf(&b, "r%d-of-%d.v%d.example\n", k, n, v)
	}
	return b.Bytes()
}

// versionOf reads a version back: 0 for no lines, -1 for anything that is not one complete version.
func versionOf(lines []string) int {
	if len(lines) == 0 {
		return 0
	}
	var k, n, v int
	for x, l := range lines {
		var k1, n1, v1 int
		if c, _ := fmt.Sscanf(l, "r%d-of-%d.v%d.example", &k1, &n1, &v1); c != 3 || k1 != x+1 || (x > 0 && (n1 != n || v1 != v)) {
			return -1
		}
		k, n, v = k1, n1, v1
	}
	if k != n || len(lines) != n {
		return -1
	}
	return v
}

func diskVersion(dir string) int {
	if dir == "" {
		return 0
	}
	es, err := os.ReadDir(dir)
	if err != nil || len(es) == 0 {
		return 0
	}
	if len(es) > 1 {
		return -1
	}
	b, _ := os.ReadFile(filepath.Join(dir, es[0].Name()))
	return versionOf(strings.Split(strings.TrimSuffix(string(b), "\n"), "\n"))
}

// TestLoader: histories of source contents and failures for file and HTTP sources.
func TestLoader(t *testing.T) {
	r := newRand(61)
	var mode atomic.Value
	var body atomic.Value
	mode.Store("ok")
	body.Store(listVersion(1, 1))
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b := body.Load().([]byte)
		switch m := mode.Load().(string); m {
		case "ok":
			w.Write(b)
		case "chunked":
			w.(http.Flusher).Flush()
			w.Write(b)
		case "404", "500", "304", "503":
			var c int
			fmt.Sscan(m, &c)
			w.WriteHeader(c)
			if c != 304 {
				w.Write(b)
			}
		case "cut", "cutchunk", "reset":
			c, bw, _ := w.(http.Hijacker).Hijack()
			lines := bytes.SplitAfter(b, []byte("\n"))
			part := bytes.Join(lines[:(len(lines)-1)/2], nil)
			if m == "cut" {
				fmt.Fprintf(bw, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(b), part)
			} else if m == "cutchunk" {
				fmt.Fprintf(bw, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
				if len(part) > 0 {
					fmt.Fprintf(bw, "%x\r\n%s\r\n", len(part), part)
				}
			}
			bw.Flush()
			c.Close()
		case "long":
			w.Write(b)
			w.Write(bytes.Repeat([]byte("x"), 1<<17))
		}
	}))
	defer srv.Close()
	for k := 0; k < envInt("VERIF_N", 200); k++ {
		kind := []string{"file", "http", "http"}[r.Intn(3)]
		allow, cdir := r.Intn(2) == 0, kind == "http" && r.Intn(3) > 0
		dir, _ := os.MkdirTemp(scrtch, "ld")
		src := filepath.Join(dir, "list")
		cache := ""
		if cdir {
			cache = filepath.Join(dir, "cache")
			os.Mkdir(cache, 0o755)
		}
		ver := 1
		size := func() int { return []int{1, 3, 50, 3000}[r.Intn(4)] }
		set := func(m string) J {
			ver++
			b := listVersion(ver, size())
			mode.Store(m)
			body.Store(b)
			os.RemoveAll(src)
			ok := m == "ok" || m == "chunked"
			if kind == "file" {
				switch m {
				case "404", "304":
				case "500", "503", "reset":
					os.Mkdir(src, 0o755)
				case "ok", "chunked":
					os.WriteFile(src, b, 0o644)
				default:
					os.WriteFile(src, append(b, bytes.Repeat([]byte("x"), 1<<17)...), 0o644)
				}
			}
			return J{"e": "src", "k": 1, "ok": ok, "v": ver, "m": m}
		}
		mk := func() rdns.BlocklistLoader {
			if kind == "file" {
				return rdns.NewFileLoader(src, rdns.FileLoaderOptions{AllowFailure: allow})
			}
			return rdns.NewHTTPLoader(srv.URL+"/list", rdns.HTTPLoaderOptions{CacheDir: cache, AllowFailure: allow})
		}
		modes := []string{"ok", "ok", "ok", "chunked", "404", "500", "304", "503", "cut", "cutchunk", "reset", "long"}
		ev := []J{set(modes[r.Intn(len(modes))])}
		ld := mk()
		for s := 4 + r.Intn(14); s > 0; s-- {
			switch r.Intn(6) {
			case 0, 1:
				ev = append(ev, set(modes[r.Intn(len(modes))]))
			case 2, 3, 4:
				rules, err := ld.Load()
				e := J{"e": "load", "err": err != nil, "v": 0}
				if err == nil {
					e["v"] = versionOf(rules)
				}
				ev = append(ev, e)
				ev = append(ev, J{"e": "disk", "v": diskVersion(cache)})
			case 5:
				ld = mk()
				ev = append(ev, J{"e": "restart"})
			}
		}
		emit(J{"cfg": J{"loader": true, "allowfail": allow, "cachedir": cdir, "lists": 1, "period": 1, "kind": kind}, "ev": ev})
		os.RemoveAll(dir)
	}
}

// prober finds out which versions are active in an element. Version v of list k is recognised by
// name v<v>.l<k>.example. or address 10.k.v.1.
type prober struct {
	res   rdns.Resolver
	kind  string
	lists int
}

const maxVer = 12

func (p *prober) listed(v, l int) bool {
	n := fmt.Sprintf("v%d.l%d.example.", v, l)
	ip := fmt.Sprintf("10.%d.%d.1", l, v)
	q := query("q.", 1)
	ci := rdns.ClientInfo{SourceIP: net.ParseIP("192.0.2.1")}
	switch p.kind {
	case "block", "allow":
		q = query(n, 1)
	case "client":
		ci.SourceIP = net.ParseIP(ip)
	case "respip", "respfilter":
		q = query("ip."+ip+".", 1)
	case "respname":
		q = query("name."+n, 1)
	}
	a, err := p.res.Resolve(q, ci)
	if err != nil || a == nil {
		panic(fmt.Sprint("probe failed: ", err))
	}
	blocked := a.Rcode != 0
	if p.kind == "allow" {
		return !blocked
	}
	return blocked
}

func (p *prober) probe() A {
	hit := A{}
	for l := 1; l <= p.lists; l++ {
		got := 0
		for v := 1; v <= maxVer; v++ {
			if p.listed(v, l) {
				if got != 0 {
					got = -1
				} else {
					got = v
				}
			}
		}
		hit = append(hit, got)
	}
	return hit
}

// probeUp answers what the question asks for: an address, a name, or anything.
func probeUp() rdns.Resolver {
	return &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		n := q.Question[0].Name
		switch {
		case strings.HasPrefix(n, "ip."):
			return reply(q, 0, n+" 60 IN A "+strings.TrimSuffix(n[3:], ".")), nil
		case strings.HasPrefix(n, "name."):
			return reply(q, 0, n+" 60 IN CNAME "+n[5:]), nil
		}
		return reply(q, 0, n+" 60 IN A 192.0.2.9"), nil
	}}
}

func makeElement(kind string, names rdns.BlocklistDB, ips rdns.IPBlocklistDB, refresh time.Duration) rdns.Resolver {
	var res rdns.Resolver
	var err error
	switch kind {
	case "block":
		res, err = rdns.NewBlocklist("b", probeUp(), rdns.BlocklistOptions{BlocklistDB: names, BlocklistRefresh: refresh})
	case "allow":
		all, _ := rdns.NewDomainDB("all", rdns.NewStaticLoader([]string{".example"}))
		res, err = rdns.NewBlocklist("b", probeUp(), rdns.BlocklistOptions{BlocklistDB: all, AllowlistDB: names, AllowlistRefresh: refresh})
	case "client":
		res, err = rdns.NewClientBlocklist("b", probeUp(), rdns.ClientBlocklistOptions{BlocklistDB: ips, BlocklistRefresh: refresh})
	case "respip", "respfilter":
		res, err = rdns.NewResponseBlocklistIP("b", probeUp(), rdns.ResponseBlocklistIPOptions{BlocklistDB: ips, BlocklistRefresh: refresh, Filter: kind == "respfilter"})
	case "respname":
		res, err = rdns.NewResponseBlocklistName("b", probeUp(), rdns.ResponseBlocklistNameOptions{BlocklistDB: names, BlocklistRefresh: refresh})
	}
	if err != nil {
		panic(err)
	}
	return res
}

var elemKinds = []string{"block", "allow", "client", "respip", "respfilter", "respname"}

// TestRefresh: real lists from files, refreshed periodically under the virtual clock.
func TestRefresh(t *testing.T) {
	r := newRand(62)
	for k := 0; k < envInt("VERIF_N", 100); k++ {
		synctestRun(t, make(chan bool), func() { refreshHistory(r) })
	}
	done()
}

func refreshHistory(r *rand.Rand) {
	kind := elemKinds[r.Intn(len(elemKinds))]
	isIP := kind == "client" || kind == "respip" || kind == "respfilter"
	lists := 1 + r.Intn(2)
	allow := r.Intn(3) == 0
	period := time.Duration(1+r.Intn(100)) * time.Second
	dir, _ := os.MkdirTemp(scrtch, "rf")
	defer os.RemoveAll(dir)
	ver := make([]int, lists)
	fmts := make([]string, lists)
	nextVer := 1
	write := func(l, v int, mode string) {
		p := filepath.Join(dir, fmt.Sprint(l))
		os.RemoveAll(p)
		var lines []string
		n := fmt.Sprintf("v%d.l%d.example", v, l+1)
		bad := ""
		switch {
		case isIP:
			lines, bad = []string{fmt.Sprintf("10.%d.%d.0/24", l+1, v), "192.168.0.0/16"}, "10.0.0/99"
		case fmts[l] == "domain":
			lines, bad = []string{n, "*.other.test"}, "a.*.b"
		case fmts[l] == "regexp":
			lines, bad = []string{"^" + strings.ReplaceAll(n, ".", `\.`) + `\.$`}, "(("
		case fmts[l] == "hosts":
			lines, bad = []string{"0.0.0.0 " + n + " other.test"}, strings.Repeat("x", 1<<17)
		}
		switch mode {
		case "missing":
			return
		case "dir":
			os.Mkdir(p, 0o755)
			return
		case "badend":
			lines = append(lines, bad)
		case "badstart":
			lines = append([]string{bad}, lines...)
		}
		os.WriteFile(p, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
	}
	var ndb []rdns.BlocklistDB
	var idb []rdns.IPBlocklistDB
	for l := range ver {
		fmts[l] = []string{"domain", "regexp", "hosts"}[r.Intn(3)]
		ver[l] = nextVer
		nextVer++
		write(l, ver[l], "ok")
		ld := rdns.NewFileLoader(filepath.Join(dir, fmt.Sprint(l)), rdns.FileLoaderOptions{AllowFailure: allow})
		var err error
		if isIP {
			var d rdns.IPBlocklistDB
			d, err = rdns.NewCidrDB("l", ld)
			idb = append(idb, d)
		} else {
			var d rdns.BlocklistDB
			switch fmts[l] {
			case "domain":
				d, err = rdns.NewDomainDB("l", ld)
			case "regexp":
				d, err = rdns.NewRegexpDB("l", ld)
			case "hosts":
				d, err = rdns.NewHostsDB("l", ld)
			}
			ndb = append(ndb, d)
		}
		if err != nil {
			panic(err)
		}
	}
	var nd rdns.BlocklistDB
	var id rdns.IPBlocklistDB
	if isIP {
		id = idb[0]
		if lists > 1 {
			id, _ = rdns.NewMultiIPDB(idb...)
		}
	} else {
		nd = ndb[0]
		if lists > 1 {
			nd, _ = rdns.NewMultiDB(ndb...)
		}
	}
	vj := A{}
	for _, v := range ver {
		vj = append(vj, v)
	}
	p := &prober{makeElement(kind, nd, id, period), kind, lists}
	ev := []J{}
	probe := func() { ev = append(ev, J{"e": "probe", "hit": p.probe()}) }
	time.Sleep(period / 2)
	for s := 4 + r.Intn(8); s > 0; s-- {
		probe()
		for l := range ver {
			if r.Intn(2) == 0 || nextVer >= maxVer {
				continue
			}
			mode := []string{"ok", "ok", "ok", "missing", "dir", "badend", "badstart"}[r.Intn(7)]
			write(l, nextVer, mode)
			ev = append(ev, J{"e": "src", "k": l + 1, "ok": mode == "ok", "v": nextVer, "m": mode})
			nextVer++
		}
		if r.Intn(3) == 0 {
			probe()
		}
		time.Sleep(period)
		synctest.Wait()
		ev = append(ev, J{"e": "refresh"})
	}
	probe()
	emit(J{"cfg": J{"loader": false, "versions": vj, "kind": kind, "fmts": fmts, "period": 1, "lists": lists, "allowfail": allow, "cachedir": false}, "ev": ev})
}

// vdb is a scripted list: one version, reloading as the world says.
type vdb struct {
	v      int
	w      *reloadWorld
	closed atomic.Bool
}

type reloadWorld struct {
	mu      sync.Mutex
	r       *rand.Rand
	t0      time.Time
	ev      []J
	next    int
	slow    bool
	onMatch func(v int, what string) // called inside a match
	onLoad  func(v int)
	max     int
}

var errReload = errors.New("reload failed")

func (w *reloadWorld) now() int { return int(time.Since(w.t0) / time.Millisecond) }

func (d *vdb) reload() (*vdb, error) {
	w := d.w
	w.mu.Lock()
	ok := w.r.Intn(3) > 0 && w.next < w.max
	v := w.next + 1
	if ok {
		w.next = v
	}
	dur := 0
	if w.slow && w.r.Intn(2) == 0 {
		dur = 1 + w.r.Intn(3000)
	}
	w.ev = append(w.ev, J{"e": "begin", "t": w.now(), "ok": ok, "v": v})
	w.mu.Unlock()
	if dur > 0 {
		time.Sleep(time.Duration(dur) * time.Millisecond)
	}
	if w.onLoad != nil {
		w.onLoad(v)
	}
	w.mu.Lock()
	w.ev = append(w.ev, J{"e": "end", "t": w.now()})
	w.mu.Unlock()
	if !ok {
		return nil, errReload
	}
	return &vdb{v: v, w: w}, nil
}

type nameVDB struct{ *vdb }

func (d nameVDB) Reload() (rdns.BlocklistDB, error) {
	n, err := d.reload()
	if err != nil {
		return nil, err
	}
	return nameVDB{n}, nil
}
func (d nameVDB) Match(q *dns.Msg) ([]net.IP, []string, *rdns.BlocklistMatch, bool) {
	n := q.Question[0].Name
	if d.w.onMatch != nil {
		d.w.onMatch(d.v, n)
	}
	return nil, nil, &rdns.BlocklistMatch{List: "l", Rule: n}, n == fmt.Sprintf("v%d.l1.example.", d.v)
}
func (d nameVDB) String() string { return "vdb" }

type ipVDB struct{ *vdb }

func (d ipVDB) Reload() (rdns.IPBlocklistDB, error) {
	n, err := d.reload()
	if err != nil {
		return nil, err
	}
	return ipVDB{n}, nil
}
func (d ipVDB) Match(ip net.IP) (*rdns.BlocklistMatch, bool) {
	if d.w.onMatch != nil {
		d.w.onMatch(d.v, ip.String())
	}
	hit := ip.String() == fmt.Sprintf("10.1.%d.1", d.v)
	if d.closed.Load() { // a closed list knows nothing any more
		return nil, false
	}
	return &rdns.BlocklistMatch{List: "l", Rule: "r"}, hit
}
func (d ipVDB) Close() error   { d.closed.Store(true); return nil }
func (d ipVDB) String() string { return "vdb" }

// TestRefreshSlow: reloads that take time or fail, queries at any moment.
func TestRefreshSlow(t *testing.T) {
	r := newRand(63)
	for k := 0; k < envInt("VERIF_N", 100); k++ {
		synctestRun(t, make(chan bool), func() {
			kind := elemKinds[r.Intn(len(elemKinds))]
			w := &reloadWorld{r: r, t0: time.Now(), next: 1, slow: true, max: maxVer}
			period := 1000 * (1 + r.Intn(10))
			d := &vdb{v: 1, w: w}
			p := &prober{makeElement(kind, nameVDB{d}, ipVDB{d}, time.Duration(period)*time.Millisecond), kind, 1}
			time.Sleep(500 * time.Microsecond) // probes never fall on the instant of a reload
			for s := 10 + r.Intn(20); s > 0; s-- {
				time.Sleep(time.Duration(r.Intn(period)) * time.Millisecond)
				synctest.Wait()
				w.mu.Lock()
				w.ev = append(w.ev, J{"e": "at", "t": w.now()})
				w.mu.Unlock()
				hit := p.probe()
				w.mu.Lock()
				w.ev = append(w.ev, J{"e": "probe", "hit": hit})
				w.mu.Unlock()
			}
			w.mu.Lock()
			emit(J{"cfg": J{"loader": false, "versions": A{1}, "kind": kind, "period": period, "lists": 1, "allowfail": false, "cachedir": false}, "ev": w.ev})
			w.mu.Unlock()
		})
	}
	done()
}

// TestRefreshMix (real time): a refresh tries to get in between the records of one response. The
// old version lists the second record, the new one the first, so every single version blocks it.
func TestRefreshMix(t *testing.T) {
	r := newRand(64)
	for k := 0; k < envInt("VERIF_N", 10); k++ {
		for _, kind := range []string{"respip", "respfilter", "respname"} {
			for _, sect := range [][2]string{{"an", "an"}, {"an", "ex"}, {"an", "ns"}} {
				if kind == "respfilter" && sect[1] != "an" {
					continue
				}
				w := &reloadWorld{r: r, t0: time.Now(), next: 1, max: 2}
				loaded := make(chan bool)
				var armed atomic.Bool
				w.onLoad = func(v int) {
					for !armed.Load() {
						time.Sleep(time.Millisecond)
					}
				}
				var once sync.Once
				d := &vdb{v: 1, w: w}
				first := map[string]string{"respip": "10.1.2.1", "respfilter": "10.1.2.1", "respname": "v2.l1.example."}[kind]
				w.onMatch = func(v int, what string) {
					if v == 1 && what == first {
						once.Do(func() {
							armed.Store(true) // the reload may finish now
							time.Sleep(60 * time.Millisecond)
							close(loaded)
						})
					}
				}
				up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
					a := reply(q, 0)
					rrs := []dns.RR{rr("q. 60 IN A 10.1.2.1"), rr("q. 60 IN A 10.1.1.1")}
					if kind == "respname" {
						rrs = []dns.RR{rr("q. 60 IN CNAME v2.l1.example."), rr("q. 60 IN CNAME v1.l1.example.")}
					}
					for x, y := range rrs {
						switch sect[x] {
						case "an":
							a.Answer = append(a.Answer, y)
						case "ns":
							a.Ns = append(a.Ns, y)
						default:
							a.Extra = append(a.Extra, y)
						}
					}
					return a, nil
				}}
				var res rdns.Resolver
				if kind == "respname" {
					res, _ = rdns.NewResponseBlocklistName("b", up, rdns.ResponseBlocklistNameOptions{BlocklistDB: nameVDB{d}, BlocklistRefresh: time.Millisecond})
				} else {
					res, _ = rdns.NewResponseBlocklistIP("b", up, rdns.ResponseBlocklistIPOptions{BlocklistDB: ipVDB{d}, BlocklistRefresh: time.Millisecond, Filter: kind == "respfilter"})
				}
				time.Sleep(5 * time.Millisecond)
				a, err := res.Resolve(query("q.", 1), rdns.ClientInfo{})
				if err != nil {
					panic(err)
				}
				kept := A{}
				for _, rrs := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
					for _, y := range rrs {
						if x := rdata(y); strings.HasPrefix(x, "10.1.2.") || strings.HasPrefix(x, "v2.") {
							kept = append(kept, 2)
						} else {
							kept = append(kept, 1)
						}
					}
				}
				emit(J{"k": "mix", "kind": kind, "second": sect[1], "filter": kind == "respfilter", "recs": A{2, 1}, "out": J{"rc": a.Rcode, "kept": kept}})
			}
		}
	}
}

// TestRefreshStress: constant reloading under load, for the race detector.
func TestRefreshStress(t *testing.T) {
	perturb(2)
	defer watchdog(120*time.Second, "refresh stress")()
	total, bad := int64(0), int64(0)
	for _, kind := range elemKinds {
		w := &reloadWorld{r: rand.New(rand.NewSource(seed)), t0: time.Now(), next: 1, max: 1 << 30}
		d := &vdb{v: 1, w: w}
		res := makeElement(kind, nameVDB{d}, ipVDB{d}, 200*time.Microsecond)
		p := &prober{res, kind, 1}
		end := time.Now().Add(time.Duration(envInt("VERIF_MS", 300)) * time.Millisecond)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(end) {
					if p.listed(0, 1) {
						atomic.AddInt64(&bad, 1)
					}
					atomic.AddInt64(&total, 1)
				}
			}()
		}
		wg.Wait()
		w.mu.Lock()
		w.max = 0
		w.mu.Unlock()
	}
	emit(J{"total": total, "bad": bad})
}
