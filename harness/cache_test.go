package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// crr is the projection of the records of a message used by the cache specifications.
func crr(m *dns.Msg) A {
	r := A{}
	for s, rrs := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, x := range rrs {
			if _, ok := x.(*dns.OPT); ok {
				continue
			}
			h := x.Header()
			r = append(r, J{"s": []string{"an", "ns", "ex"}[s], "a": h.Rrtype == dns.TypeA || h.Rrtype == dns.TypeAAAA,
				"x": fmt.Sprintf("%s %d %d %s", wireName(h.Name), h.Class, h.Rrtype, rdata(x)), "ttl": clampTTL(int64(h.Ttl))})
		}
	}
	return r
}

// wireName is the name as it reads after having been on the wire.
func wireName(s string) string {
	b := make([]byte, 256)
	if n, err := dns.PackDomainName(s, b, 0, nil, false); err == nil {
		if x, _, err := dns.UnpackDomainName(b[:n], 0); err == nil {
			return x
		}
	}
	return s
}

// cret is what a resolver returned, as the cache specifications see it.
func cret(q *dns.Msg, a *dns.Msg, err error) J {
	if err != nil {
		return J{"k": "err", "tc": false, "rc": 0, "rrs": A{}, "idok": true, "qok": true}
	}
	if a == nil {
		return J{"k": "nil", "tc": false, "rc": 0, "rrs": A{}, "idok": true, "qok": true}
	}
	qok := len(a.Question) == len(q.Question)
	for i := range a.Question {
		qok = qok && a.Question[i] == q.Question[i]
	}
	return J{"k": "msg", "tc": a.Truncated, "rc": a.Rcode, "rrs": crr(a), "idok": a.Id == q.Id, "qok": qok}
}

// respGen makes upstream responses with unique records.
type respGen struct {
	r    *rand.Rand
	n    int
	ttls []int
	rcs  []int
	odd  int // one in odd responses is an error, dropped or truncated
	max  int // answers
}

func (g *respGen) ttl() int { return g.ttls[g.r.Intn(len(g.ttls))] }

func (g *respGen) make(q *dns.Msg) (*dns.Msg, error) {
	g.n++
	if g.odd > 0 && g.r.Intn(g.odd) == 0 {
		switch g.r.Intn(3) {
		case 0:
			return nil, errUp
		case 1:
			return nil, nil
		}
		a := reply(q, 0, fmt.Sprintf("trunc. %d IN TXT \"n%d\"", g.ttl(), g.n))
		a.Truncated = true
		return a, nil
	}
	a := reply(q, g.rcs[g.r.Intn(len(g.rcs))])
	n := strings.ToLower(q.Question[0].Name)
	if a.Rcode == 0 && g.r.Intn(8) > 0 || g.r.Intn(6) == 0 {
		if g.r.Intn(4) == 0 {
			a.Answer = append(a.Answer, rr(fmt.Sprintf("%s %d IN CNAME c%d.target.", n, g.ttl(), g.n)))
		}
		for j := g.r.Intn(g.max); j >= 0; j-- {
			switch g.r.Intn(5) {
			case 0:
				a.Answer = append(a.Answer, rr(fmt.Sprintf("%s %d IN TXT \"n%d.%d\"", n, g.ttl(), g.n, j)))
			case 1:
				a.Answer = append(a.Answer, rr(fmt.Sprintf("%s %d IN AAAA 2001:db8::%x:%x", n, g.ttl(), g.n, j)))
			default:
				a.Answer = append(a.Answer, rr(fmt.Sprintf("%s %d IN A 10.%d.%d.%d", n, g.ttl(), g.n/250, g.n%250, j)))
			}
		}
	}
	if g.r.Intn(3) == 0 {
		a.Ns = append(a.Ns, rr(fmt.Sprintf("zone. %d IN SOA ns%d. host. 1 2 3 4 5", g.ttl(), g.n)))
		for g.r.Intn(3) == 0 {
			a.Ns = append(a.Ns, rr(fmt.Sprintf("zone. %d IN NS ns%d.%d.", g.ttl(), len(a.Ns), g.n)))
		}
	}
	for g.r.Intn(4) == 0 {
		a.Extra = append(a.Extra, rr(fmt.Sprintf("glue%d.%d. %d IN A 10.1.1.1", len(a.Extra), g.n, g.ttl())))
	}
	if g.r.Intn(3) == 0 {
		a.SetEdns0(1232, false)
		// The option record can be anywhere in its section
		i, last := g.r.Intn(len(a.Extra)), len(a.Extra)-1
		a.Extra[i], a.Extra[last] = a.Extra[last], a.Extra[i]
	}
	return a, nil
}

// spoil does to a message what a careless later element might.
func spoil(m *dns.Msg) {
	if m == nil {
		return
	}
	m.Id ^= 0x5555
	for i := range m.Question {
		m.Question[i].Name = "spoiled."
	}
	for _, rrs := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, x := range rrs {
			if a, ok := x.(*dns.A); ok && len(a.A) > 0 {
				a.A[len(a.A)-1] ^= 0xff
			}
			x.Header().Ttl = 77777
			x.Header().Name = "spoiled."
		}
	}
	m.Rcode = 9
	m.Answer = nil
}

func ancestors(name string) A {
	r := A{}
	name = strings.ToLower(name)
	for i := 1; i < dns.CountLabel(name); i++ {
		r = append(r, name[dns.Split(name)[i]:])
	}
	return r
}

type upCall struct {
	q   *dns.Msg
	out chan struct{}
	msg *dns.Msg
	err error
}

type cworld struct {
	r     *rand.Rand
	gen   *respGen
	log   *evlog
	t0    time.Time
	mu    sync.Mutex
	pend  []*upCall
	pf    []*upCall
	pfAll []*upCall
	be    interface{ Size() int }
	cache *rdns.Cache
	marks []int // instants worth probing
	quick bool  // upstream answers at once
}

func (w *cworld) now() int { return int(time.Since(w.t0) / time.Millisecond) }

func (w *cworld) upstream() rdns.Resolver {
	return &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		u := &upCall{q: q, out: make(chan struct{})}
		w.mu.Lock()
		w.pend = append(w.pend, u)
		w.mu.Unlock()
		<-u.out
		return u.msg, u.err
	}}
}

func (w *cworld) taken() []*upCall {
	w.mu.Lock()
	defer w.mu.Unlock()
	p := w.pend
	w.pend = nil
	return p
}

func sameQuery(a, b *dns.Msg) bool {
	x, e1 := a.Copy().Pack()
	y, e2 := b.Copy().Pack()
	return e1 == nil && e2 == nil && string(x) == string(y)
}

// answer lets an upstream call return; the record of what it returned is made before.
func (w *cworld) answer(u *upCall, orig *dns.Msg) J {
	u.msg, u.err = w.gen.make(orig)
	j := cret(orig, u.msg, u.err)
	if u.msg != nil {
		for _, x := range [][]dns.RR{u.msg.Answer, u.msg.Ns, u.msg.Extra} {
			for _, y := range x {
				w.marks = append(w.marks, w.now()+1000*int(y.Header().Ttl))
			}
		}
	}
	close(u.out)
	return j
}

func (w *cworld) ask(k qkey, multi bool) {
	q := k.msg(w.r)
	q.Id = uint16(w.r.Intn(65536))
	if k.name == flushName { // only this spelling flushes
		q.Question[0].Name = flushName
	}
	if multi {
		q.Question = append(q.Question, dns.Question{Name: "second.", Qtype: 1, Qclass: 1})
	}
	orig := q.Copy()
	e := J{"e": "hit", "t": w.now(), "key": k.json(), "anc": ancestors(k.name), "pf": 0, "pfok": true}
	fin := false
	var ret J
	go func() {
		a, err := w.cache.Resolve(q, rdns.ClientInfo{})
		ret = cret(orig, a, err)
		spoil(q)
		spoil(a)
		fin = true
	}()
	synctest.Wait()
	ups := w.taken()
	if fin {
		for _, u := range ups {
			e["pf"] = e["pf"].(int) + 1
			e["pfok"] = e["pfok"].(bool) && sameQuery(u.q, orig)
			u.q = orig
			w.pf = append(w.pf, u)
			w.pfAll = append(w.pfAll, u)
		}
		e["ret"] = ret
		if k.name == flushName {
			e["e"] = "flush"
		}
		w.log.add(e)
		return
	}
	if len(ups) != 1 {
		panic(fmt.Sprintf("%d upstream calls", len(ups)))
	}
	e["e"] = "miss"
	if multi {
		e["e"] = "bypass"
	}
	e["upok"] = sameQuery(ups[0].q, orig)
	if w.r.Intn(4) == 0 && !w.quick {
		time.Sleep(time.Duration(w.r.Intn(1500)) * time.Millisecond)
	}
	e["t2"] = w.now()
	e["up"] = w.answer(ups[0], orig)
	synctest.Wait()
	if !fin {
		panic("query not answered")
	}
	e["ret"] = ret
	w.log.add(e)
}

func (w *cworld) refreshEnd() {
	if len(w.pf) == 0 {
		return
	}
	j := w.r.Intn(len(w.pf))
	u := w.pf[j]
	w.pf = append(w.pf[:j], w.pf[j+1:]...)
	n := 0
	for x, v := range w.pfAll {
		if v == u {
			n = x + 1
		}
	}
	e := J{"e": "pfend", "t": w.now(), "n": n}
	e["up"] = w.answer(u, u.q)
	synctest.Wait()
	w.log.add(e)
}

func (w *cworld) size() {
	w.log.add(J{"e": "size", "t": w.now(), "n": w.be.Size()})
}

const flushName = "flush.cache."

func newCWorld(r *rand.Rand, gen *respGen, opt rdns.CacheOptions, gc time.Duration, capacity int) (*cworld, J) {
	w := &cworld{r: r, gen: gen, log: &evlog{}, t0: time.Now()}
	be := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: capacity, GCPeriod: gc})
	w.be = be
	opt.Backend = be
	w.cache = rdns.NewCache("c", w.upstream(), opt)
	caps := A{}
	for k, v := range opt.CacheRcodeMaxTTL {
		caps = append(caps, A{k, int(v)})
	}
	return w, J{"cap": capacity, "neg": int(opt.NegativeTTL), "caps": caps, "harden": opt.HardenBelowNXDOMAIN, "flush": opt.FlushQuery != "",
		"trigger": int(opt.PrefetchTrigger), "elig": int(opt.PrefetchEligible), "shuffle": opt.ShuffleAnswerFunc != nil, "gc": gc < time.Hour}
}

// pass lets time go by, often to an instant next to where something expires.
func (w *cworld) pass(max int) {
	d := 0
	switch w.r.Intn(6) {
	case 0:
		d = []int{1, 500, 999, 1000, 1001, 2000}[w.r.Intn(6)]
	case 1:
		d = w.r.Intn(max * 1000)
	case 2:
		d = 1000 * w.r.Intn(max)
	default:
		if len(w.marks) > 0 {
			d = w.marks[w.r.Intn(len(w.marks))] + []int{-1000, -1, 0, 1, 1, 999}[w.r.Intn(6)] - w.now()
		}
	}
	if d > 0 && d < 4*max*1000 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
}

func cacheScenario(r *rand.Rand, focus string) J {
	gen := &respGen{r: r, ttls: []int{100, 200, 300, 3600}, rcs: []int{0, 0, 0, 0, 3}, odd: 12, max: 3}
	opt := rdns.CacheOptions{}
	gc := 10000 * time.Hour
	capacity := 0
	steps := 12 + r.Intn(10)
	maxPass := 40
	var keys []qkey
	passes := 5
	switch focus {
	case "C01":
		base := randKey(r)
		keys = []qkey{base, nearMiss(r, base), nearMiss(r, base), nearMiss(r, base)}
		if r.Intn(2) == 0 { // names below each other
			opt.HardenBelowNXDOMAIN = r.Intn(4) > 0
			gen.rcs = []int{0, 3, 3}
			keys = nil
			b := randKey(r)
			for _, n := range []string{"com.", "example.com.", "www.example.com.", "a.www.example.com.", "myexample.com.", "xample.com.", `w\.example.com.`} {
				x := b
				x.name = n
				keys = append(keys, x)
				if r.Intn(6) == 0 {
					x.do = !x.do
					keys = append(keys, x)
				}
				if r.Intn(6) == 0 {
					x.typ = 15
					keys = append(keys, x)
				}
			}
		}
		switch r.Intn(3) {
		case 0:
			opt.ShuffleAnswerFunc = rdns.AnswerShuffleRandom
		case 1:
			opt.ShuffleAnswerFunc = rdns.AnswerShuffleRoundRobin
		}
		if r.Intn(3) == 0 {
			opt.FlushQuery = flushName
		}
		gen.max = 5
		passes = 2
	case "C02":
		base := randKey(r)
		keys = []qkey{base, nearMiss(r, base)}
		gen.ttls = []int{0, 1, 1, 2, 3, 5, 10, 30, 100, 400, 1000}
		if r.Intn(2) == 0 {
			gen.ttls = []int{1, 2, 3, 5, 9}
		}
		gen.rcs = []int{0, 0, 0, 3, 2, 1, 4, 5, 6, 9, 11}
		opt.NegativeTTL = []uint32{0, 1, 5, 30, 200, 400}[r.Intn(6)]
		if r.Intn(2) == 0 {
			opt.CacheRcodeMaxTTL = map[int]uint32{}
			for j := 0; j < 1+r.Intn(3); j++ {
				opt.CacheRcodeMaxTTL[r.Intn(6)] = []uint32{1, 3, 7, 20, 100}[r.Intn(5)]
			}
		}
		if r.Intn(3) == 0 {
			gc = time.Duration(1+r.Intn(9)) * time.Second
		}
		opt.HardenBelowNXDOMAIN = r.Intn(4) == 0
		maxPass = []int{6, 20, 100, 400}[r.Intn(4)]
		passes = 10
	case "C03":
		for _, n := range []string{"a.", "b.", "c.", "d.", "e.", "f."}[:3+r.Intn(4)] {
			keys = append(keys, qkey{name: n, typ: 1, class: 1})
		}
		capacity = 1 + r.Intn(4)
		opt.FlushQuery = flushName
		gen.odd = 30
		gen.rcs = []int{0, 0, 0, 0, 0, 0, 3, 2, 9}
		if r.Intn(3) == 0 {
			gen.ttls = []int{1, 2, 5, 10, 100}
			gc = time.Duration(1+r.Intn(9)) * time.Second
		}
		steps += 10
		passes = 2
	case "C05":
		base := randKey(r)
		keys = []qkey{base}
		if r.Intn(2) == 0 {
			keys = append(keys, nearMiss(r, base))
		}
		gen.ttls = []int{2, 3, 5, 8, 10, 12, 20}
		gen.rcs = []int{0, 0, 0, 0, 3, 2, 5}
		gen.odd = 6
		gen.max = 2
		opt.PrefetchTrigger = uint32([]int{0, 2, 4, 5, 8, 15}[r.Intn(6)])
		opt.PrefetchEligible = uint32([]int{0, 2, 5, 9, 12, 100}[r.Intn(6)])
		if r.Intn(4) == 0 {
			opt.ShuffleAnswerFunc = rdns.AnswerShuffleRandom
		}
		if r.Intn(4) == 0 {
			capacity = 1
		}
		if r.Intn(4) == 0 {
			opt.CacheRcodeMaxTTL = map[int]uint32{0: 4}
		}
		maxPass = 6
		passes = 8
		steps += 8
	}
	w, cfg := newCWorld(r, gen, opt, gc, capacity)
	for s := 0; s < steps; s++ {
		x := r.Intn(20)
		switch {
		case x < passes:
			w.pass(maxPass)
		case x < passes+1 && opt.FlushQuery != "":
			w.ask(qkey{name: flushName, typ: 1, class: 1}, false)
		case x < passes+1 && focus == "C01":
			w.ask(keys[r.Intn(len(keys))], true)
		case len(w.pf) > 0 && r.Intn(2) == 0:
			w.refreshEnd()
		default:
			w.ask(keys[r.Intn(len(keys))], false)
			if capacity > 0 {
				w.size()
			}
		}
	}
	return J{"cfg": cfg, "ev": w.log.take()}
}

func TestCache(t *testing.T) {
	r := newRand(31)
	n := envInt("VERIF_N", 200)
	for k := 0; k < n; k++ {
		synctestRun(t, make(chan bool), func() { emit(cacheScenario(r, os.Getenv("VERIF_FOCUS"))) })
	}
	done()
}

// TestCacheExhaustive plays every sequence of queries (up to renaming of names) of a given
// length against small capacities; symbol 0 is the flush query.
func TestCacheExhaustive(t *testing.T) {
	r := newRand(32)
	length := envInt("VERIF_LEN", 6)
	names := []string{"a.", "b.", "c.", "d."}
	var seqs [][]int
	var rec func(s []int, used int)
	rec = func(s []int, used int) {
		if len(s) == length {
			seqs = append(seqs, append([]int{}, s...))
			return
		}
		if len(s) > 0 && s[len(s)-1] != 0 {
			rec(append(s, 0), used)
		}
		for k := 1; k <= used+1 && k <= len(names); k++ {
			nu := used
			if k > used {
				nu = k
			}
			rec(append(s, k), nu)
		}
	}
	rec(nil, 0)
	for capacity := 1; capacity <= 3; capacity++ {
		for lo := 0; lo < len(seqs); lo += 100 {
			hi := min(lo+100, len(seqs))
			synctestRun(t, make(chan bool), func() {
				for _, s := range seqs[lo:hi] {
					gen := &respGen{r: r, ttls: []int{3600}, rcs: []int{0}, max: 1}
					w, cfg := newCWorld(r, gen, rdns.CacheOptions{FlushQuery: flushName}, 10000*time.Hour, capacity)
					for _, k := range s {
						if k == 0 {
							w.ask(qkey{name: flushName, typ: 1, class: 1}, false)
						} else {
							w.ask(qkey{name: names[k-1], typ: 1, class: 1}, false)
						}
						w.size()
					}
					emit(J{"cfg": cfg, "ev": w.log.take()})
				}
			})
		}
	}
	done()
}

// TestCacheStress hammers one cache from many goroutines; run with the race detector.
func TestCacheStress(t *testing.T) {
	perturb(3)
	capacity := 8
	var wrong, hits, misses, over, lost atomic.Int64
	up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		misses.Add(1)
		a := reply(q, 0, strings.ToLower(q.Question[0].Name)+" 3600 IN A 10.0.0.1", strings.ToLower(q.Question[0].Name)+" 3600 IN A 10.0.0.2")
		a.Answer[0].(*dns.A).A[3] = q.Question[0].Name[1]
		return a, nil
	}}
	be := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: capacity, GCPeriod: time.Millisecond})
	shuffles := []rdns.AnswerShuffleFunc{nil, rdns.AnswerShuffleRandom, rdns.AnswerShuffleRoundRobin}
	cache := rdns.NewCache("c", up, rdns.CacheOptions{Backend: be, FlushQuery: flushName, PrefetchTrigger: 4000, HardenBelowNXDOMAIN: true,
		ShuffleAnswerFunc: shuffles[newRand(33).Intn(3)]})
	// a large cache in which nothing may ever be lost
	var seen sync.Map
	up2 := &fn{"up2", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		if _, dup := seen.LoadOrStore(q.Question[0].Name, true); dup {
			lost.Add(1)
		}
		return reply(q, 0, q.Question[0].Name+" 36000 IN A 10.0.0.1"), nil
	}}
	big := rdns.NewCache("big", up2, rdns.CacheOptions{GCPeriod: time.Millisecond, Capacity: 100000})
	stop := time.Now().Add(time.Duration(envInt("VERIF_MS", 1000)) * time.Millisecond)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := newRand(int64(1000 + g))
			for n := 0; time.Now().Before(stop); n++ {
				c := byte(1 + r.Intn(14))
				name := string([]byte{'n', 'a' + c, '.'})
				q := query(randCase(r, name), 1)
				q.Id = uint16(r.Intn(65536))
				q.RecursionDesired = true
				if r.Intn(200) == 0 {
					q.Question[0].Name = flushName
				}
				qq := q.Question[0]
				id := q.Id
				a, err := cache.Resolve(q, rdns.ClientInfo{})
				hits.Add(1)
				if err != nil || a == nil || a.Id != id || len(a.Question) != 1 || a.Question[0] != qq {
					wrong.Add(1)
					continue
				}
				if qq.Name != flushName {
					ok := len(a.Answer) == 2
					for _, x := range a.Answer {
						ok = ok && x.Header().Name == name
					}
					if !ok {
						wrong.Add(1)
					}
				}
				spoil(a)
				if r.Intn(10) == 0 && be.Size() > capacity {
					over.Add(1)
				}
				// every goroutine has its own names in the large cache
				b := query(fmt.Sprintf("g%d-%d.", g, r.Intn(1+n/3)), 1)
				a, _ = big.Resolve(b, rdns.ClientInfo{})
				spoil(a)
			}
		}()
	}
	wg.Wait()
	emit(J{"wrong": wrong.Load(), "queries": hits.Load(), "misses": misses.Load(), "over": over.Load(), "lost": lost.Load()})
	done()
}

func freqScenario(r *rand.Rand) J {
	log := &evlog{}
	t0 := time.Now()
	sec := func() int { return int(time.Since(t0) / time.Second) }
	gen := &respGen{r: r, ttls: []int{1, 5, 30, 60, 60, 100}, rcs: []int{0, 0, 0, 0, 3}, odd: 10, max: 2}
	base := randKey(r)
	keys := []qkey{base, nearMiss(r, base)}
	thr := 1 + r.Intn(5)
	win := 40 + r.Intn(60)
	var cur J
	var curQ *dns.Msg
	up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		a, err := gen.make(q)
		if cur == nil { // not caused by a client
			kj := J{}
			for _, k := range keys {
				c := k.msg(r)
				c.Id = q.Id
				if keyOf(q) == keyOf(c) {
					kj = k.json()
				}
			}
			if len(kj) == 0 {
				kj = J{"ln": "?" + q.String(), "t": 0, "cl": 0, "do": false, "cd": false, "ecs": ""}
			}
			log.add(J{"e": "refresh", "t": sec(), "key": kj})
			return a, err
		}
		cur["up"] = cret(curQ, a, err)
		cur["upok"] = sameQuery(q, curQ)
		return a, err
	}}
	pf := rdns.NewPrefetch("p", up, rdns.PrefetchOptions{PrefetchWindow: time.Duration(win) * time.Second, PrefetchThreshold: uint64(thr), PrefetchMaxItems: 10})
	for s := 0; s < 12+r.Intn(10); s++ {
		k := keys[r.Intn(len(keys))]
		if r.Intn(4) > 0 {
			k = keys[0]
		}
		q := k.msg(r)
		q.Id = uint16(r.Intn(65536))
		curQ = q.Copy()
		e := J{"e": "ask", "t": sec(), "key": k.json()}
		cur = e
		a, err := pf.Resolve(q, rdns.ClientInfo{Listener: "l"})
		cur = nil
		e["ret"] = cret(curQ, a, err)
		log.add(e)
		spoil(q)
		spoil(a)
		switch r.Intn(5) {
		case 0:
			time.Sleep(time.Duration(win+20+r.Intn(100)) * time.Second)
		case 1:
			time.Sleep(time.Duration(r.Intn(win)) * time.Second)
		default:
			time.Sleep(time.Duration(r.Intn(20)) * time.Second)
		}
		synctest.Wait()
	}
	time.Sleep(time.Duration(r.Intn(4*win)) * time.Second)
	synctest.Wait()
	return J{"cfg": J{"window": win, "slack": 12, "threshold": thr}, "ev": log.take()}
}

// keyOf identifies a query ignoring letter case and ID.
func keyOf(q *dns.Msg) string {
	j := optJ(q)
	s := ""
	do := false
	for _, o := range j {
		do = o.(J)["do"].(bool)
		for _, x := range o.(J)["opts"].(A) {
			if x.(J)["code"] == 8 {
				s += fmt.Sprint(x)
			}
		}
	}
	x := q.Question[0]
	return fmt.Sprint(strings.ToLower(x.Name), x.Qtype, x.Qclass, do, q.CheckingDisabled, s)
}

func TestFrequency(t *testing.T) {
	r := newRand(34)
	for k := 0; k < envInt("VERIF_N", 200); k++ {
		synctestRun(t, make(chan bool), func() { emit(freqScenario(r)) })
	}
	done()
}
