package zzverif

import (
	"fmt"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

func TestBalance(t *testing.T) {
	r := newRand(4)
	for k := 0; k < envInt("VERIF_N", 300); k++ {
		perturb(r.Intn(4))
		b := make(chan bool)
		synctestRun(t, b, func() {
			n := 1 + r.Intn(4)
			w := newWorld(r, n)
			kind := []string{"rr", "rnd", "rnd", "lb", "fast"}[r.Intn(5)]
			sf, ee := r.Intn(2) == 0, r.Intn(2) == 0
			reset := 0
			var g rdns.Resolver
			ms := w.members(n)
			switch kind {
			case "rr":
				g = rdns.NewRoundRobin("g", ms...)
			case "rnd":
				reset = []int{300, 1000, 5000}[r.Intn(3)]
				g = rdns.NewRandom("g", rdns.RandomOptions{ResetAfter: time.Duration(reset) * time.Millisecond, ServfailError: sf, EmptyError: ee}, ms...)
			case "lb":
				pen := []time.Duration{0, time.Second}[r.Intn(2)]
				g = rdns.NewLoadBalance("g", rdns.LoadBalanceOptions{FailurePenalty: pen, ServfailError: sf, EmptyError: ee}, ms...)
			case "fast":
				g = rdns.NewFastest("g", ms...)
			}
			w.play(g, 4+r.Intn(7), reset)
			emit(J{"cfg": J{"kind": kind, "n": n, "reset": reset, "sf": sf, "ee": ee}, "ev": w.log.take()})
		})
	}
	done()
}

// TestBalanceShares measures how queries are spread in the long run. Bounds are at least six
// standard deviations away from what the documented behaviour gives.
func TestBalanceShares(t *testing.T) {
	perturb(0)
	emitShares := func(kind string, got, min, max []int) {
		emit(J{"cfg": J{"kind": kind, "n": len(got), "reset": 1, "sf": false, "ee": false},
			"ev": A{J{"e": "shares", "t": 0, "got": got, "min": min, "max": max}}})
	}
	count := func(n int, lat []time.Duration, bad func(m, k int) bool) (*sync.Mutex, []int, []rdns.Resolver) {
		got := make([]int, n)
		var mu sync.Mutex
		var ms []rdns.Resolver
		for m := 0; m < n; m++ {
			ms = append(ms, &fn{fmt.Sprint("m", m), func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				mu.Lock()
				got[m]++
				k := got[m]
				mu.Unlock()
				time.Sleep(lat[m])
				if bad(m, k) {
					return nil, errUp
				}
				return reply(q, 0, "a. 1 IN A 192.0.2.1"), nil
			}})
		}
		return &mu, got, ms
	}
	never := func(int, int) bool { return false }
	ms := func(d ...int) []time.Duration {
		r := []time.Duration{}
		for _, x := range d {
			r = append(r, time.Duration(x)*time.Millisecond)
		}
		return r
	}
	for rep := 0; rep < envInt("VERIF_N", 2); rep++ {
		synctestRun(t, make(chan bool), func() {
			q := query("a.", 1)
			// round robin, concurrent callers: exact
			_, got, mem := count(3, ms(5, 0, 9), never)
			rr := rdns.NewRoundRobin("s", mem...)
			var wg sync.WaitGroup
			for c := 0; c < 300; c++ {
				wg.Add(1)
				go func() { defer wg.Done(); rr.Resolve(q, rdns.ClientInfo{}) }()
			}
			wg.Wait()
			emitShares("rr", got, []int{100, 100, 100}, []int{100, 100, 100})

			// random: concurrent failures of one member, then it must be back exactly once
			failing := true
			_, got, mem = count(3, ms(10, 10, 10), func(m, k int) bool { return m == 1 && failing })
			rnd := rdns.NewRandom("s", rdns.RandomOptions{ResetAfter: time.Second}, mem...)
			for c := 0; c < 60; c++ {
				wg.Add(1)
				go func() { defer wg.Done(); rnd.Resolve(q, rdns.ClientInfo{}) }()
			}
			wg.Wait()
			time.Sleep(1500 * time.Millisecond)
			for c := 0; c < 30; c++ {
				wg.Add(1)
				go func() { defer wg.Done(); rnd.Resolve(q, rdns.ClientInfo{}) }()
			}
			wg.Wait()
			failing = false
			time.Sleep(3 * time.Second)
			got[0], got[1], got[2] = 0, 0, 0
			for c := 0; c < 1200; c++ {
				rnd.Resolve(q, rdns.ClientInfo{})
			}
			emitShares("rnd", got, []int{290, 290, 290}, []int{510, 510, 510})

			// load balance: fast against slow (1 ms vs 100 ms)
			for _, lat := range [][]int{{1, 100}, {100, 1}} {
				_, got, mem = count(2, ms(lat...), never)
				lb := rdns.NewLoadBalance("s", rdns.LoadBalanceOptions{}, mem...)
				for c := 0; c < 3000; c++ {
					lb.Resolve(q, rdns.ClientInfo{})
				}
				f, s := 2550, 25
				if lat[0] == 1 {
					emitShares("lb", got, []int{f, s}, []int{2975, 450})
				} else {
					emitShares("lb", got, []int{s, f}, []int{450, 2975})
				}
			}
			// a member that slows down loses its share
			_, got, mem = count(2, ms(20, 20), never)
			lat := ms(20, 20)
			_, got, mem = count(2, lat, never)
			lb := rdns.NewLoadBalance("s", rdns.LoadBalanceOptions{}, mem...)
			for c := 0; c < 400; c++ {
				lb.Resolve(q, rdns.ClientInfo{})
			}
			lat[0] = 800 * time.Millisecond
			for c := 0; c < 1500; c++ {
				lb.Resolve(q, rdns.ClientInfo{})
			}
			got[0], got[1] = 0, 0
			for c := 0; c < 2000; c++ {
				lb.Resolve(q, rdns.ClientInfo{})
			}
			emitShares("lb", got, []int{10, 1500}, []int{500, 1990})
			// a fast-failing member gains nothing by failing, and recovers afterwards
			for _, pen := range []time.Duration{0, 2 * time.Second} {
				failing = true
				_, got, mem = count(2, ms(0, 10), func(m, k int) bool { return m == 0 && failing })
				lb = rdns.NewLoadBalance("s", rdns.LoadBalanceOptions{FailurePenalty: pen}, mem...)
				for c := 0; c < 2000; c++ {
					lb.Resolve(q, rdns.ClientInfo{})
				}
				emitShares("lb", got, []int{15, 2000}, []int{700, 2000})
				failing = false
				for c := 0; c < 1000; c++ {
					lb.Resolve(q, rdns.ClientInfo{})
				}
				got[0], got[1] = 0, 0
				for c := 0; c < 2000; c++ {
					lb.Resolve(q, rdns.ClientInfo{})
				}
				emitShares("lb", got, []int{1300, 15}, []int{1985, 700})
			}
		})
	}
	done()
}

// TestGroupStress runs every group with real threads under the race detector.
func TestGroupStress(t *testing.T) {
	perturb(2)
	mk := func() []rdns.Resolver {
		var ms []rdns.Resolver
		for m := 0; m < 3; m++ {
			ms = append(ms, &fn{fmt.Sprint("m", m), func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				if (int(q.Id)*7+m*3)%4 == 0 {
					return nil, errUp
				}
				return reply(q, 0, "a. 1 IN A 192.0.2.1"), nil
			}})
		}
		return ms
	}
	gs := []rdns.Resolver{
		rdns.NewRoundRobin("a", mk()...),
		rdns.NewRandom("b", rdns.RandomOptions{ResetAfter: time.Millisecond}, mk()...),
		rdns.NewLoadBalance("c", rdns.LoadBalanceOptions{FailurePenalty: time.Second}, mk()...),
		rdns.NewFastest("d", mk()...),
		rdns.NewFailRotate("e", rdns.FailRotateOptions{}, mk()...),
		rdns.NewFailBack("f", rdns.FailBackOptions{ResetAfter: 2 * time.Millisecond}, mk()...),
	}
	if f := envInt("VERIF_GROUPS", 0); f == 1 {
		gs = gs[4:]
	} else {
		gs = gs[:4]
	}
	dur := time.Duration(envInt("VERIF_MS", 500)) * time.Millisecond
	for gi, g := range gs {
		stop := time.Now().Add(dur)
		var wg sync.WaitGroup
		var mu sync.Mutex
		var ok, bad int
		for c := 0; c < 16; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; time.Now().Before(stop); k++ {
					q := query("a.", 1)
					q.Id = uint16(c*1000 + k%1000)
					a, err := g.Resolve(q, rdns.ClientInfo{})
					mu.Lock()
					if err == nil && (a == nil || a.Id == q.Id) {
						ok++
					} else if err == nil {
						bad++
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		emit(J{"group": gi, "ok": ok, "bad": bad})
	}
}
