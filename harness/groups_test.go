package zzverif

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// mout is what a group member does with a query.
type mout struct {
	k   string // err, nil, msg
	rc  int
	ans []uint16
	ede []uint16
}

func (o mout) json(qt uint16, tok string) J {
	a, e := A{}, A{}
	for _, x := range o.ans {
		a = append(a, int(x))
	}
	for _, x := range o.ede {
		e = append(e, int(x))
	}
	if o.k != "msg" {
		return J{"k": o.k, "rc": 0, "qt": int(qt), "ans": A{}, "ede": A{}, "tok": ""}
	}
	return J{"k": o.k, "rc": o.rc, "qt": int(qt), "ans": a, "ede": e, "tok": tok}
}

func (o mout) build(q *dns.Msg, tok string) (*dns.Msg, error) {
	switch o.k {
	case "err":
		return nil, errUp
	case "nil":
		return nil, nil
	}
	a := reply(q, o.rc)
	n := q.Question[0].Name
	for _, t := range o.ans {
		switch t {
		case dns.TypeA:
			a.Answer = append(a.Answer, rr(n+" 60 IN A 192.0.2.1"))
		case dns.TypeAAAA:
			a.Answer = append(a.Answer, rr(n+" 60 IN AAAA 2001:db8::1"))
		case dns.TypeCNAME:
			a.Answer = append(a.Answer, rr(n+" 60 IN CNAME other."))
		case dns.TypeHINFO:
			a.Answer = append(a.Answer, rr(n+" 60 IN HINFO a b"))
		case dns.TypeSOA:
			a.Answer = append(a.Answer, rr(n+" 60 IN SOA a. b. 1 2 3 4 5"))
		}
	}
	a.Ns = append(a.Ns, rr("tok. 60 IN TXT \""+tok+"\""))
	if len(o.ede) > 0 {
		a.SetEdns0(1232, false)
		for _, c := range o.ede {
			a.IsEdns0().Option = append(a.IsEdns0().Option, &dns.EDNS0_EDE{InfoCode: c})
		}
	}
	return a, nil
}

// outFrom reads an outcome back from what the caller received.
func outFrom(q *dns.Msg, a *dns.Msg, err error) J {
	if err != nil {
		return mout{k: "err"}.json(q.Question[0].Qtype, "")
	}
	if a == nil {
		return mout{k: "nil"}.json(q.Question[0].Qtype, "")
	}
	o := mout{k: "msg", rc: a.Rcode}
	tok := ""
	for _, r := range a.Answer {
		o.ans = append(o.ans, r.Header().Rrtype)
	}
	for _, r := range a.Ns {
		tok += strings.Trim(rdata(r), "\"")
	}
	if e := a.IsEdns0(); e != nil {
		for _, x := range e.Option {
			if d, ok := x.(*dns.EDNS0_EDE); ok {
				o.ede = append(o.ede, d.InfoCode)
			}
		}
	}
	qt := uint16(0)
	if len(a.Question) == 1 && a.Id == q.Id {
		qt = a.Question[0].Qtype
	}
	return o.json(qt, tok)
}

var goodOuts = []mout{{k: "msg", ans: []uint16{1}}, {k: "msg", ans: []uint16{5, 1}}, {k: "nil"}, {k: "msg", rc: 3}, {k: "msg"}}
var badOuts = []mout{{k: "err"}, {k: "msg", rc: 5}, {k: "msg", rc: 4}, {k: "err"}}
var oddOuts = []mout{{k: "msg", rc: 2}, {k: "msg", rc: 2, ede: []uint16{15}}, {k: "msg"}, {k: "msg", rc: 3}, {k: "msg", ans: []uint16{5}}, {k: "msg", ans: []uint16{13}},
	{k: "msg", ede: []uint16{15}}, {k: "msg", rc: 3, ede: []uint16{16}}, {k: "msg", ede: []uint16{6, 17}}, {k: "msg", ede: []uint16{6}}, {k: "msg", ans: []uint16{6}},
	{k: "msg", ans: []uint16{28}}, {k: "msg", ans: []uint16{13, 1}}, {k: "msg", rc: 1}, {k: "msg", rc: 5, ans: []uint16{1}}, {k: "msg", rc: 2, ans: []uint16{1}},
	{k: "msg", ans: []uint16{5}, ede: []uint16{15}}}

// world runs calls through a group with members under the virtual clock and logs everything.
type world struct {
	r      *rand.Rand
	log    *evlog
	t0     time.Time
	mu     sync.Mutex
	health []int // per member: 0 good, 1 bad, 2 odd
	lat    []int // per member: max latency in ms
	gran   int
	calls  int
	open   int
	lastT  int // time of the last failing answer, to aim at boundaries
	qts    []uint16
}

func (w *world) now() int { return int(time.Since(w.t0) / time.Millisecond) }

func (w *world) ev(e J) {
	e["t"] = w.now()
	w.log.add(e)
}

func (w *world) rnd(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.r.Intn(n)
}

func (w *world) members(n int) []rdns.Resolver {
	var res []rdns.Resolver
	for m := 0; m < n; m++ {
		res = append(res, &fn{fmt.Sprintf("m%d", m), func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			c := int(q.Id)
			w.mu.Lock()
			w.ev(J{"e": "ask", "c": c, "m": m})
			var o mout
			switch w.health[m] {
			case 0:
				o = goodOuts[w.r.Intn(len(goodOuts))]
				if w.r.Intn(2) == 0 {
					o = goodOuts[0]
				}
			case 1:
				o = badOuts[w.r.Intn(len(badOuts))]
			default:
				o = oddOuts[w.r.Intn(len(oddOuts))]
			}
			d := 0
			if w.lat[m] > 0 {
				d = w.r.Intn(w.lat[m]/w.gran+1) * w.gran
			}
			w.mu.Unlock()
			if d > 0 {
				time.Sleep(time.Duration(d) * time.Millisecond)
			}
			tok := fmt.Sprintf("m%dc%dt%d", m, c, w.now())
			a, err := o.build(q, tok)
			w.mu.Lock()
			w.ev(J{"e": "ans", "c": c, "m": m, "o": o.json(q.Question[0].Qtype, tok)})
			w.lastT = w.now()
			w.mu.Unlock()
			return a, err
		}})
	}
	return res
}

func (w *world) call(g rdns.Resolver) {
	w.mu.Lock()
	w.calls++
	w.open++
	c := w.calls
	qt := w.qts[w.r.Intn(len(w.qts))]
	w.mu.Unlock()
	q := query("example.com.", qt)
	q.Id = uint16(c)
	orig := q.Copy()
	w.ev(J{"e": "begin", "c": c})
	go func() {
		a, err := g.Resolve(q, rdns.ClientInfo{})
		w.mu.Lock()
		w.open--
		w.ev(J{"e": "end", "c": c, "o": outFrom(orig, a, err)})
		w.mu.Unlock()
	}()
}

func (w *world) idle() {
	synctest.Wait()
	w.ev(J{"e": "idle"})
}

func (w *world) sleep(ms int) {
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
}

// play makes n calls with varying overlap; reset is the group's timer in ms to aim at.
func (w *world) play(g rdns.Resolver, n, reset int) {
	for w.calls < n {
		switch w.rnd(8) {
		case 0, 1, 2:
			w.call(g)
			if w.rnd(3) > 0 {
				w.idle()
			}
		case 3:
			w.call(g)
			w.call(g)
		case 4:
			w.sleep(w.rnd(6) * w.gran)
		case 5: // aim at the timer
			if reset > 0 {
				w.mu.Lock()
				d := w.lastT + reset - w.now() + w.r.Intn(3) - 1
				w.mu.Unlock()
				w.sleep(d)
			}
		case 6:
			w.mu.Lock()
			w.health[w.r.Intn(len(w.health))] = w.r.Intn(3)
			w.mu.Unlock()
		case 7:
			w.sleep(w.rnd(2*reset + 10))
			w.idle()
		}
	}
	w.sleep(20000)
	w.idle()
	w.sleep(2*reset + 1)
	w.idle()
}

func newWorld(r *rand.Rand, n int) *world {
	w := &world{r: r, log: &evlog{}, t0: time.Now(), gran: []int{1, 50, 100}[r.Intn(3)], qts: []uint16{1}}
	if r.Intn(3) == 0 {
		w.qts = []uint16{1, 28, 255}
	}
	l := []int{0, 100, 300}[r.Intn(3)]
	for m := 0; m < n; m++ {
		w.health = append(w.health, []int{0, 1, 1, 2}[r.Intn(4)])
		w.lat = append(w.lat, l)
	}
	return w
}

func TestFailOver(t *testing.T) {
	r := newRand(3)
	perturb(0)
	for k := 0; k < envInt("VERIF_N", 300); k++ {
		if k%4 == 0 {
			perturb(r.Intn(4))
		}
		b := make(chan bool) // made outside: a bubble blocked on it never advances again
		synctestRun(t, b, func() {
			n := 1 + r.Intn(4)
			w := newWorld(r, n)
			kind := []string{"rotate", "back", "back"}[r.Intn(3)]
			reset := []int{0, 1000, 1000, 350, 5000}[r.Intn(5)]
			sf, ee := r.Intn(2) == 0, r.Intn(2) == 0
			var g rdns.Resolver
			ms := w.members(n)
			if kind == "rotate" {
				reset = 0
				g = rdns.NewFailRotate("g", rdns.FailRotateOptions{ServfailError: sf, EmptyError: ee}, ms...)
			} else {
				g = rdns.NewFailBack("g", rdns.FailBackOptions{ResetAfter: time.Duration(reset) * time.Millisecond, ServfailError: sf, EmptyError: ee}, ms...)
			}
			w.play(g, 4+r.Intn(8), reset)
			emit(J{"cfg": J{"kind": kind, "n": n, "reset": reset, "sf": sf, "ee": ee}, "ev": w.log.take()})
		})
	}
	done()
}

// synctestRun runs f in a bubble that is abandoned afterwards (components may have endless
// goroutines, so the bubble could never end by itself).
func synctestRun(t *testing.T, never chan bool, f func()) {
	fin := make(chan bool)
	go func() {
		synctest.Test(t, func(t *testing.T) {
			f()
			close2(fin)
			<-never
		})
	}()
	<-fin
}

func close2(c chan bool) { close(c) }
