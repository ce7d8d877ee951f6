package zzverif

import (
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// TestRateLimit records call histories under the virtual clock.
func TestRateLimit(t *testing.T) {
	n := envInt("VERIF_N", 200)
	r := newRand(1)
	perturb(2)
	for k := 0; k < n; k++ {
		p4s := []int{0, 8, 20, 24, 25, 31, 32}
		p6s := []int{0, 48, 56, 57, 63, 64, 128}
		cfg := J{"n": r.Intn(4), "w": []int{0, 1, 2, 7, 60}[r.Intn(5)], "p4": p4s[r.Intn(len(p4s))], "p6": p6s[r.Intn(len(p6s))], "lim": r.Intn(2) == 0}
		if r.Intn(6) == 0 {
			cfg["n"] = 8
		}
		win := cfg["w"].(int)
		if win == 0 {
			win = 60
		}
		log := &evlog{}
		synctest.Test(t, func(t *testing.T) {
			up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				if q.Id%7 == 3 {
					return nil, errUp
				}
				return reply(q, 0, "up. 1 IN TXT \"up\""), nil
			}}
			lim := &fn{"lim", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				if q.Id%7 == 3 {
					return nil, errUp
				}
				return reply(q, 5, "lim. 1 IN TXT \"lim\""), nil
			}}
			opt := rdns.RateLimiterOptions{Requests: uint(cfg["n"].(int)), Window: uint(cfg["w"].(int)), Prefix4: uint8(cfg["p4"].(int)), Prefix6: uint8(cfg["p6"].(int))}
			if cfg["lim"].(bool) {
				opt.LimitResolver = lim
			}
			var calls sync.Map // id -> who got it
			wrap := func(f *fn) {
				g := f.f
				f.f = func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
					calls.Store(q.Id, f.name)
					return g(q, ci)
				}
			}
			wrap(up)
			wrap(lim)
			rl := rdns.NewRateLimiter("rl", up, opt)
			bases := []net.IP{net.IPv4(10, 1, 2, 3).To4(), net.ParseIP("2001:db8:1:2:3:4:5:6")}
			pool := []net.IP{}
			for _, b := range bases {
				pool = append(pool, b)
				plen := cfg["p4"].(int)
				if len(b) == 16 {
					plen = cfg["p6"].(int)
				}
				if plen == 0 {
					plen = map[int]int{4: 24, 16: 56}[len(b)]
				}
				// flip the bit just inside and just outside the prefix, and another one
				for _, bit := range []int{plen - 1, plen, r.Intn(len(b) * 8)} {
					if bit >= 0 && bit < len(b)*8 {
						c := append(net.IP{}, b...)
						c[bit/8] ^= 0x80 >> (bit % 8)
						pool = append(pool, c)
					}
				}
			}
			pool = append(pool, bases[0].To16())
			id := uint16(0)
			steps := 6 + r.Intn(14)
			for s := 0; s < steps; s++ {
				switch r.Intn(5) {
				case 0: // move time, mostly close to a window boundary
					now := time.Now()
					next := (now.Unix()/int64(win) + 1) * int64(win)
					d := time.Unix(next, 0).Sub(now)
					switch r.Intn(4) {
					case 0:
						d -= time.Millisecond
					case 1:
						d = time.Duration(r.Intn(win*1000)) * time.Millisecond
					case 2:
						d += time.Duration(r.Intn(3*win)) * time.Second
					}
					if d > 0 {
						time.Sleep(d)
					}
				default:
					burst := 1
					if r.Intn(3) == 0 {
						burst = 2 + r.Intn(4)
					}
					same := pool[r.Intn(len(pool))]
					var wg sync.WaitGroup
					for b := 0; b < burst; b++ {
						id++
						ip := same
						if r.Intn(3) == 0 {
							ip = pool[r.Intn(len(pool))]
						}
						q := query("example.com.", dns.TypeA)
						q.Id = id
						log.add(J{"e": "begin", "c": int(id), "ip": ipBytes(ip), "t": time.Now().Unix(), "out": "", "ret": ""})
						wg.Add(1)
						go func() {
							defer wg.Done()
							a, err := rl.Resolve(q, rdns.ClientInfo{SourceIP: ip})
							who := "none"
							if w, ok := calls.Load(q.Id); ok {
								who = w.(string)
							}
							ret := "nil"
							if err != nil {
								ret = "err"
							} else if a != nil {
								ret = a.Answer[0].Header().Name
							}
							log.add(J{"e": "end", "c": int(q.Id), "ip": A{}, "t": time.Now().Unix(), "out": who, "ret": ret})
						}()
					}
					wg.Wait()
				}
			}
		})
		emit(J{"cfg": cfg, "ev": log.take()})
	}
}

// TestRateLimitBoundary hammers a limiter with real threads across real window boundaries and
// emits, per window, counts that are certain whatever the scheduling was.
func TestRateLimitBoundary(t *testing.T) {
	rounds := envInt("VERIF_ROUNDS", 4)
	const limit = 50
	for rd := 0; rd < rounds; rd++ {
		var cur atomic.Int64
		_ = cur
		type pass struct{ b, e int64 }
		var mu sync.Mutex
		var passes, rejects []pass
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return q, nil }}
		rl := rdns.NewRateLimiter("rlb", up, rdns.RateLimiterOptions{Requests: limit, Window: 1})
		stop := time.Now().Add(2500 * time.Millisecond)
		var wg sync.WaitGroup
		for g := 0; g < 4*runtime.GOMAXPROCS(0); g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var ps, rs []pass
				ci := rdns.ClientInfo{SourceIP: net.IPv4(10, 0, 0, 1)}
				q := query("a.", dns.TypeA)
				for {
					now := time.Now()
					if now.After(stop) {
						break
					}
					// only hammer around the boundary
					if ms := now.Nanosecond() / 1e6; ms > 60 && ms < 950 {
						time.Sleep(time.Duration(950-ms) * time.Millisecond)
						continue
					}
					b := now.Unix()
					a, _ := rl.Resolve(q, ci)
					e := time.Now().Unix()
					if a != nil {
						ps = append(ps, pass{b, e})
					} else if len(rs) < 200000 {
						rs = append(rs, pass{b, e})
					}
				}
				mu.Lock()
				passes = append(passes, ps...)
				rejects = append(rejects, rs...)
				mu.Unlock()
			}()
		}
		wg.Wait()
		wins := map[int64]J{}
		get := func(w int64) J {
			if wins[w] == nil {
				wins[w] = J{"e": "window", "n": limit, "passcertain": 0, "passpossible": 0, "rejcertain": 0}
			}
			return wins[w]
		}
		for _, p := range passes {
			for w := p.b; w <= p.e; w++ {
				get(w)["passpossible"] = get(w)["passpossible"].(int) + 1
			}
			if p.b == p.e {
				get(p.b)["passcertain"] = get(p.b)["passcertain"].(int) + 1
			}
		}
		for _, p := range rejects {
			if p.b == p.e {
				get(p.b)["rejcertain"] = get(p.b)["rejcertain"].(int) + 1
			}
		}
		for _, w := range wins {
			emit(w)
		}
	}
}
