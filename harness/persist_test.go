package zzverif

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

func persistName(j int) string { return fmt.Sprintf("k%d.example.", j) }

type persistCache struct {
	be interface {
		Close() error
		Size() int
	}
	cache *rdns.Cache
}

func openPersist(file string, interval time.Duration, have func(q *dns.Msg) *dns.Msg) *persistCache {
	be := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file, SaveInterval: interval})
	up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		if a := have(q); a != nil {
			return a, nil
		}
		return nil, errUp
	}}
	return &persistCache{be, rdns.NewCache("c", up, rdns.CacheOptions{Backend: be})}
}

func (p *persistCache) ask(j int) bool {
	a, err := p.cache.Resolve(query(persistName(j), 16), rdns.ClientInfo{})
	return err == nil && a != nil && len(a.Answer) == 1 && strings.Contains(a.Answer[0].String(), fmt.Sprintf("v%d-", j))
}

// a response of some size
func persistAnswer(size int) func(q *dns.Msg) *dns.Msg {
	return func(q *dns.Msg) *dns.Msg {
		a := reply(q, 0)
		t := &dns.TXT{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: 16, Class: 1, Ttl: 36000}}
		t.Txt = append(t.Txt, fmt.Sprintf("v%s-", strings.TrimPrefix(strings.Split(q.Question[0].Name, ".")[0], "k")))
		for n := 0; n < size; n += 200 {
			t.Txt = append(t.Txt, strings.Repeat("y", 200))
		}
		a.Answer = []dns.RR{t}
		return a
	}
}

// TestSaveDriver is run with its system calls watched: it loads a file, adds responses and saves.
func TestSaveDriver(t *testing.T) {
	runtime.LockOSThread()
	file := os.Getenv("VERIF_FILE")
	from, to := envInt("VERIF_FROM", 0), envInt("VERIF_TO", 4)
	size := envInt("VERIF_SIZE", 200)
	ivl := time.Duration(0)
	if os.Getenv("VERIF_MODE") == "interval" {
		ivl = 2 * time.Millisecond
	}
	p := openPersist(file, ivl, persistAnswer(size))
	switch os.Getenv("VERIF_MODE") {
	case "one":
		for j := from + 1; j <= to; j++ {
			if !p.ask(j) {
				panic("not answered")
			}
		}
		os.Stat("/verif-begin")
		if err := p.be.Close(); err != nil {
			os.Stat("/verif-failed")
		} else {
			os.Stat("/verif-saved")
		}
	default: // saves going on while responses come in
		os.Stat("/verif-begin")
		var wg sync.WaitGroup
		for s := 0; s < 3; s++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 4; k++ {
					p.be.Close()
				}
			}()
		}
		for j := from + 1; j <= to; j++ {
			p.ask(j)
			time.Sleep(200 * time.Microsecond)
		}
		wg.Wait()
	}
}

type restoreJob struct {
	ID   int
	Path string
}

// TestRestore starts a cache from each of a list of files and reports what it serves.
func TestRestore(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_LIST"))
	if err != nil {
		panic(err)
	}
	var jobs []restoreJob
	if err := json.Unmarshal(b, &jobs); err != nil {
		panic(err)
	}
	n := envInt("VERIF_KEYS", 10)
	for _, j := range jobs {
		p := openPersist(j.Path, 0, func(*dns.Msg) *dns.Msg { return nil })
		keys := A{}
		for k := 1; k <= n; k++ {
			if p.ask(k) {
				keys = append(keys, k)
			}
		}
		if p.be.Size() != len(keys) { // something else in there
			keys = append(keys, -1)
		}
		emit(J{"id": j.ID, "keys": keys, "started": true})
		flush()
	}
}

// TestCleanup starts caches in directories with all kinds of things in them.
func TestCleanup(t *testing.T) {
	r := newRand(44000)
	own := os.Getenv("VERIF_TMPNAME")
	base := filepath.Join(scrtch, "clean")
	for k := 0; k < envInt("VERIF_N", 10); k++ {
		dir := filepath.Join(base, fmt.Sprint(k))
		os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
		out := filepath.Join(base, fmt.Sprintf("out%d", k))
		os.WriteFile(out, []byte("x"), 0o600)
		type entry struct {
			path               string
			own, regular, oldd bool
		}
		var es []entry
		digits := func() string {
			b := []byte(own)
			for i := range b {
				if b[i] >= '0' && b[i] <= '9' {
					b[i] = byte('0' + r.Intn(10))
				}
			}
			return string(b)
		}
		for x := 0; x < 12; x++ {
			name, mine := digits(), true
			switch r.Intn(8) {
			case 0:
				name, mine = "x"+name, false
			case 1:
				name, mine = name[:len(name)/3], false
			case 2:
				name, mine = []string{"data.json", "notes", ".hidden", "routedns", "tmp", "cache.json.bak", "routedns123", "config.toml"}[r.Intn(8)], false
			}
			p := filepath.Join(dir, name)
			if r.Intn(8) == 0 {
				p, mine = filepath.Join(dir, "sub", name), false
			}
			if _, err := os.Lstat(p); err == nil {
				continue
			}
			regular := true
			switch r.Intn(8) {
			case 0:
				os.Mkdir(p, 0o755)
				regular = false
			case 1:
				os.Symlink(out, p)
				regular = false
			default:
				os.WriteFile(p, []byte("x"), os.FileMode([]int{0o600, 0o644, 0o400}[r.Intn(3)]))
			}
			age := []time.Duration{0, 10 * time.Minute, 3 * time.Hour, 72 * time.Hour}[r.Intn(4)]
			if regular || age > 0 {
				at := time.Now().Add(-age)
				if age > time.Hour { // the link's own time cannot be set this way
					os.Chtimes(out, at, at)
				}
				os.Chtimes(p, at, at)
			}
			es = append(es, entry{p, mine, regular, age > time.Hour})
		}
		named := r.Intn(4) > 0
		file := filepath.Join(dir, "cache.json")
		if !named {
			t.Chdir(dir)
			file = "cache.json"
		}
		if r.Intn(2) == 0 {
			os.WriteFile(filepath.Join(dir, "cache.json"), []byte("{}\n"), 0o600)
		}
		at := time.Now().Add(-100 * time.Hour)
		os.Chtimes(filepath.Join(dir, "cache.json"), at, at)
		_, e0 := os.Lstat(filepath.Join(dir, "cache.json"))
		openPersist(file, 0, func(*dns.Msg) *dns.Msg { return nil })
		for _, e := range es {
			_, err := os.Lstat(e.path)
			emit(J{"k": "entry", "own": e.own, "regular": e.regular, "stale": e.oldd, "named": named, "removed": err != nil, "name": strings.TrimPrefix(e.path, dir)})
		}
		_, e1 := os.Lstat(filepath.Join(dir, "cache.json"))
		_, e2 := os.Lstat(out)
		emit(J{"k": "entry", "own": false, "regular": true, "stale": true, "named": named, "removed": (e0 == nil && e1 != nil) || e2 != nil, "name": "the cache file or a file elsewhere"})
	}
	t.Chdir("/")
	os.RemoveAll(base)
}

// pworld is a cache with a file, restarted every now and then.
type pworld struct {
	*cworld
	opt  rdns.CacheOptions
	file string
	gen_ int
	ivl  time.Duration
	t1   time.Time // when the present backend was made
	done int       // interval saves noted
	back interface{ Close() error }
}

func (w *pworld) open(capacity int) {
	be := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: capacity, GCPeriod: 10000 * time.Hour, Filename: w.file, SaveInterval: w.ivl})
	w.be, w.back = be, be
	w.opt.Backend = be
	w.cache = rdns.NewCache("c", w.upstream(), w.opt)
	w.t1, w.done = time.Now(), 0
}

// noted records saves that have come due.
func (w *pworld) noted() {
	if w.ivl == 0 {
		return
	}
	if n := int(time.Since(w.t1) / w.ivl); n > w.done {
		w.done = n
		w.log.add(J{"e": "save", "t": w.now()})
	}
}

// damaged returns the content of the file with some damage and what that makes unreadable.
func (w *pworld) damaged(b []byte, keys []qkey) (out []byte, lost, after A) {
	lost, after = A{}, A{}
	lines := strings.SplitAfter(string(b), "\n")
	if len(lines) > 0 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	keyOf := make([]qkey, len(lines))
	for i, l := range lines {
		n := 0
		for _, k := range keys {
			if strings.Contains(strings.ToLower(l), "\""+strings.ToLower(k.name)+"\"") {
				keyOf[i] = k
				n++
			}
		}
		if n != 1 { // not a file of that form
			return b, lost, after
		}
	}
	from := func(i int) A {
		r := A{}
		for ; i < len(lines); i++ {
			r = append(r, keyOf[i].json())
		}
		return r
	}
	at := w.r.Intn(len(lines) + 1)
	switch w.r.Intn(5) {
	case 0: // the end is missing
		cut := w.r.Intn(len(b) + 1)
		n := 0
		for i, l := range lines {
			if cut < n+len(strings.TrimSuffix(l, "\n")) {
				return b[:cut], from(i), after
			}
			n += len(l)
		}
		return b[:cut], lost, after
	case 1: // records of another kind
		j := []string{"{}\n", "{\"foo\":1}\n", "null\n", "{\"Key\":{\"Question\":{\"Name\":\"other.\"}}}\n"}[w.r.Intn(4)]
		return []byte(strings.Join(lines[:at], "") + j + strings.Join(lines[at:], "")), lost, after
	case 2: // something else altogether
		j := []string{"\x00\x01\xff\n", "}{\n", "garbage\n", "{\"Key\":\n"}[w.r.Intn(4)]
		return []byte(strings.Join(lines[:at], "") + j + strings.Join(lines[at:], "")), lost, from(at)
	case 3: // nothing usable
		return []byte([]string{"", "\n\n", "\xfe\xff", "[]", "0"}[w.r.Intn(5)]), from(0), after
	}
	// a message that cannot be decoded
	if at == len(lines) {
		return b, lost, after
	}
	var rec map[string]any
	if json.Unmarshal([]byte(lines[at]), &rec) != nil {
		return b, lost, after
	}
	hit := false
	for _, v := range rec {
		m, _ := v.(map[string]any)
		for k, x := range m {
			if s, ok := x.(string); ok && len(s) > 40 {
				m[k] = s[:12]
				hit = true
			}
		}
	}
	nb, err := json.Marshal(rec)
	if !hit || err != nil {
		return b, lost, after
	}
	return []byte(strings.Join(lines[:at], "") + string(nb) + "\n" + strings.Join(lines[at+1:], "")), A{keyOf[at].json()}, after
}

func (w *pworld) restart(keys []qkey, unique bool) {
	if w.r.Intn(2) == 0 {
		if err := w.back.Close(); err != nil {
			panic(err)
		}
		w.log.add(J{"e": "save", "t": w.now()})
	}
	b, err := os.ReadFile(w.file)
	w.gen_++
	w.file = fmt.Sprintf("%s%d", strings.TrimRight(w.file, "0123456789"), w.gen_)
	lost, after := A{}, A{}
	if err == nil {
		if unique && len(b) > 0 && w.r.Intn(2) == 0 {
			b, lost, after = w.damaged(b, keys)
		}
		if err := os.WriteFile(w.file, b, 0o600); err != nil {
			panic(err)
		}
	}
	if w.r.Intn(2) == 0 {
		w.pass(60)
	}
	capacity := []int{0, 0, 1, 2, 3, 10}[w.r.Intn(6)]
	w.open(capacity)
	w.pf, w.pfAll = nil, nil
	w.log.add(J{"e": "restart", "t": w.now(), "cap": capacity, "lost": lost, "after": after})
	w.size()
}

var oddNames = []string{"a\\.b.example.", "sp\\032ace.example.", "\\200\\255.example.", "x<y>&z.example.", "q\\\"uote.example.", "back\\\\slash.example.", "tab\\009.example."}

func persistScenario(r *rand.Rand, k int) J {
	gen := &respGen{r: r, ttls: []int{1, 5, 10, 60, 100, 300, 3600}, rcs: []int{0, 0, 0, 0, 3, 2, 5}, odd: 12, max: 4}
	w := &pworld{cworld: &cworld{r: r, gen: gen, log: &evlog{}, t0: time.Now(), quick: true}}
	w.file = filepath.Join(scrtch, fmt.Sprintf("p%d-", k))
	defer func() {
		for j := 0; j <= w.gen_; j++ {
			os.Remove(fmt.Sprintf("%s%d", strings.TrimRight(w.file, "0123456789"), j))
		}
	}()
	w.file += "0"
	unique := r.Intn(2) == 0
	var keys []qkey
	base := randKey(r)
	for j := 0; j < 2+r.Intn(4); j++ {
		x := base
		if unique {
			x = randKey(r)
			x.name = fmt.Sprintf("u%d.example.", j)
		} else if j > 0 {
			x = nearMiss(r, base)
			if r.Intn(3) == 0 {
				x.name = oddNames[r.Intn(len(oddNames))]
			}
		}
		keys = append(keys, x)
	}
	if r.Intn(2) == 0 {
		w.ivl = time.Duration(1+r.Intn(30))*time.Second + 500*time.Microsecond
	}
	w.opt.NegativeTTL = []uint32{0, 5, 30}[r.Intn(3)]
	trigger, elig := 0, 0
	if r.Intn(3) == 0 {
		trigger, elig = 4, []int{0, 8}[r.Intn(2)]
		w.opt.PrefetchTrigger, w.opt.PrefetchEligible = uint32(trigger), uint32(elig)
	}
	capacity := []int{0, 0, 2, 3}[r.Intn(4)]
	w.open(capacity)
	cfg := J{"cap": capacity, "neg": int(w.opt.NegativeTTL), "caps": A{}, "harden": false, "flush": false, "trigger": trigger, "elig": elig, "shuffle": false, "gc": false}
	for s := 14 + r.Intn(12); s > 0; s-- {
		switch x := r.Intn(20); {
		case x < 4:
			w.pass(40)
			w.noted()
		case x < 5:
			w.back.Close()
			w.log.add(J{"e": "save", "t": w.now()})
		case x < 8 && len(w.pf) == 0:
			w.restart(keys, unique)
		case len(w.pf) > 0 && r.Intn(2) == 0:
			w.refreshEnd()
		default:
			w.ask(keys[r.Intn(len(keys))], false)
		}
	}
	return J{"cfg": cfg, "ev": w.log.take()}
}

func TestPersist(t *testing.T) {
	r := newRand(45000)
	n := envInt("VERIF_N", 200)
	for k := 0; k < n; k++ {
		synctestRun(t, make(chan bool), func() { emit(persistScenario(r, k)) })
	}
	done()
}
