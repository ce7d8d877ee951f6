package zzverif

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// qkey are the components of a query that decide whether it is "the same" as another.
type qkey struct {
	name   string
	typ    uint16
	class  uint16
	do, cd bool
	edns   bool
	ecs    string // "" or "fam/addr/mask"
}

func (k qkey) msg(r *rand.Rand) *dns.Msg {
	q := new(dns.Msg)
	q.SetQuestion(randCase(r, k.name), k.typ)
	q.Question[0].Qclass = k.class
	q.CheckingDisabled = k.cd
	if k.do || k.edns || k.ecs != "" {
		q.SetEdns0(uint16(1000+r.Intn(3000)), k.do)
		if k.ecs != "" {
			opt := q.IsEdns0()
			if r.Intn(3) == 0 {
				opt.Option = append(opt.Option, &dns.EDNS0_LOCAL{Code: 65100, Data: []byte{1}})
			}
			opt.Option = append(opt.Option, parseECS(k.ecs))
		}
	}
	return q
}

func parseECS(s string) *dns.EDNS0_SUBNET {
	f := strings.Split(s, "/")
	var fam, mask int
	fmt.Sscanf(f[0], "%d", &fam)
	fmt.Sscanf(f[2], "%d", &mask)
	ip := net.ParseIP(f[1])
	if fam == 1 {
		ip = ip.To4()
	}
	return &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: uint16(fam), SourceNetmask: uint8(mask), Address: ip}
}

func (k qkey) json() J {
	return J{"ln": strings.ToLower(k.name), "t": int(k.typ), "cl": int(k.class), "do": k.do, "cd": k.cd, "ecs": k.ecs}
}

var ecsPool = []string{"", "1/192.0.2.0/24", "1/192.0.3.0/24", "1/192.0.2.0/23", "2/2001:db8::/56", "2/2001:db8::/48",
	"2/2001:db8:0:100::/56", "1/0.0.0.0/0", "2/::/0", "1/0.0.0.0/8", "2/::/8", "2/0:0:0:1::/64", "2/::1:0:0:0/64", "1/192.0.2.1/32"}
var typePool = []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeTXT, dns.TypeMX, 257, 1 + 256}
var namePool = []string{"example.com.", "www.example.com.", "example.co.", "a.b.example.com.", "."}

func randKey(r *rand.Rand) qkey {
	return qkey{name: namePool[r.Intn(len(namePool))], typ: typePool[r.Intn(len(typePool))], class: []uint16{1, 1, 1, 3, 255}[r.Intn(5)],
		do: r.Intn(2) == 0, cd: r.Intn(2) == 0, edns: r.Intn(2) == 0, ecs: ecsPool[r.Intn(len(ecsPool))]}
}

// nearMiss differs from k in exactly one component.
func nearMiss(r *rand.Rand, k qkey) qkey {
	for {
		m := k
		switch r.Intn(7) {
		case 0:
			m.name = namePool[r.Intn(len(namePool))]
		case 1:
			m.typ = typePool[r.Intn(len(typePool))]
		case 2:
			m.class = []uint16{1, 3, 255, 257}[r.Intn(4)]
		case 3:
			m.do = !m.do
		case 4:
			m.cd = !m.cd
		default:
			m.ecs = ecsPool[r.Intn(len(ecsPool))]
		}
		if m != k {
			return m
		}
	}
}

type pendUp struct {
	id  int
	out chan string
}

func outcome(q *dns.Msg, o string) (*dns.Msg, error) {
	switch o[0] {
	case 'e':
		return nil, errUp
	case 'n':
		return nil, nil
	}
	a := reply(q, map[byte]int{'m': 0, 's': 2, 'x': 3}[o[0]], "tok. 300 IN TXT \""+o+"\"")
	a.Ns = append(a.Ns, rr("auth. 60 IN NS "+o+"."))
	return a, nil
}

func TestDedup(t *testing.T) {
	n := envInt("VERIF_N", 300)
	r := newRand(2)
	for k := 0; k < n; k++ {
		perturb(r.Intn(4))
		log := &evlog{}
		synctest.Test(t, func(t *testing.T) {
			ok := dedupScenario(r, log)
			emit(J{"cfg": J{}, "ev": log.take()})
			if !ok { // callers are stuck, the bubble could not end
				done()
			}
		})
	}
}

func dedupScenario(r *rand.Rand, log *evlog) bool {
	var mu sync.Mutex
	pend := []*pendUp{}
	up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		p := &pendUp{int(q.Id), make(chan string, 1)}
		mu.Lock()
		log.add(J{"e": "start", "c": p.id})
		pend = append(pend, p)
		mu.Unlock()
		o := <-p.out
		a, err := outcome(q, o)
		if o[0] == 'e' || o[0] == 'n' {
			o = o[:1]
		}
		log.add(J{"e": "finish", "c": p.id, "out": o})
		return a, err
	}}
	dd := rdns.NewRequestDedup("dd", up)
	base := randKey(r)
	keys := []qkey{base, nearMiss(r, base)}
	if r.Intn(3) == 0 {
		keys = append(keys, nearMiss(r, base))
	}
	seen := map[dns.RR]bool{}
	open := 0
	id := 0
	call := func() {
		id++
		kk := keys[r.Intn(len(keys))]
		q := kk.msg(r)
		q.Id = uint16(id)
		e := kk.json()
		e["e"], e["c"] = "begin", id
		mu.Lock()
		open++
		mu.Unlock()
		log.add(e)
		orig := q.Copy()
		go func() {
			a, err := dd.Resolve(q, rdns.ClientInfo{})
			o := "e"
			idok, qok, shared := true, true, false
			if err == nil && a == nil {
				o = "n"
			} else if err == nil {
				o = "?"
				if len(a.Answer) == 1 {
					o = strings.Trim(rdata(a.Answer[0]), "\"")
					if a.Answer[0].Header().Ttl != 300 {
						o = "modified"
					}
				}
				idok = a.Id == orig.Id
				qok = len(a.Question) == 1 && a.Question[0] == orig.Question[0]
				mu.Lock()
				for _, x := range append(append([]dns.RR{}, a.Answer...), a.Ns...) {
					if seen[x] {
						shared = true
					}
					seen[x] = true
				}
				mu.Unlock()
				// what a caller does to its copy must not show anywhere else
				a.Answer[0].Header().Ttl = 1
				a.Id = 0
				a.Question = nil
			}
			mu.Lock()
			open--
			mu.Unlock()
			log.add(J{"e": "end", "c": int(orig.Id), "out": o, "idok": idok, "qok": qok, "shared": shared})
		}()
	}
	finish := func(all bool) {
		mu.Lock()
		defer mu.Unlock()
		for len(pend) > 0 {
			j := r.Intn(len(pend))
			p := pend[j]
			pend = append(pend[:j], pend[j+1:]...)
			p.out <- string("mmmsxen"[r.Intn(7)]) + fmt.Sprint(p.id)
			if !all {
				return
			}
		}
	}
	idle := func() {
		synctest.Wait()
		log.add(J{"e": "idle"})
	}
	for s := 0; s < 5+r.Intn(5) && id < 7; s++ {
		switch r.Intn(6) {
		case 0, 1:
			call()
		case 2:
			call()
			idle()
		case 3:
			finish(false)
		case 4:
			finish(false)
			call()
			if r.Intn(2) == 0 {
				call()
			}
		case 5:
			idle()
		}
	}
	idle()
	for j := 0; j < 20; j++ {
		finish(true)
		synctest.Wait()
	}
	idle()
	time.Sleep(time.Hour)
	idle()
	return open == 0
}

// TestDedupStress uses real threads; run with the race detector.
func TestDedupStress(t *testing.T) {
	perturb(3)
	for k := 0; k < envInt("VERIF_N", 20); k++ {
		log := &evlog{}
		up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			log.add(J{"e": "start", "c": int(q.Id)})
			time.Sleep(time.Duration(rand.Intn(50)) * time.Microsecond)
			o := "m" + fmt.Sprint(q.Id)
			a, err := outcome(q, o)
			log.add(J{"e": "finish", "c": int(q.Id), "out": o})
			return a, err
		}}
		dd := rdns.NewRequestDedup("dd", up)
		var wg sync.WaitGroup
		kk := qkey{name: "example.com.", typ: 1, class: 1}
		for c := 1; c <= 6; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed + int64(k*100+c)))
				q := kk.msg(r)
				q.Id = uint16(c)
				qq := q.Question[0]
				e := kk.json()
				e["e"], e["c"] = "begin", c
				log.add(e)
				a, _ := dd.Resolve(q, rdns.ClientInfo{})
				o := "?"
				if a != nil && len(a.Answer) == 1 {
					o = strings.Trim(rdata(a.Answer[0]), "\"")
					a.Answer[0].Header().Ttl = 1
				}
				log.add(J{"e": "end", "c": c, "out": o, "idok": a != nil && a.Id == uint16(c), "qok": a != nil && a.Question[0] == qq, "shared": false})
			}()
		}
		wg.Wait()
		log.add(J{"e": "idle"})
		emit(J{"cfg": J{}, "ev": log.take()})
	}
}
