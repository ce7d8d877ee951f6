package zzverif

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

func strBytes(s string) A {
	r := A{}
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}

// pat is a pattern with its regular expression.
type pat struct{ k, s string }

func (p pat) re() string {
	q := regexp.QuoteMeta(p.s)
	switch p.k {
	case "any":
		return ""
	case "exact":
		return "^" + q + "$"
	case "prefix":
		return "^" + q
	case "suffix":
		return q + "$"
	}
	return q
}

func (p pat) json() J { return J{"k": p.k, "s": strBytes(p.s)} }

func randPat(r *rand.Rand, texts []string) pat {
	if r.Intn(4) == 0 {
		return pat{"any", ""}
	}
	return pat{[]string{"exact", "prefix", "suffix", "contains"}[r.Intn(4)], texts[r.Intn(len(texts))]}
}

func netsJ(cidr string) A {
	if cidr == "" {
		return A{}
	}
	_, n, err := net.ParseCIDR(cidr)
	if err != nil {
		panic(err)
	}
	ones, _ := n.Mask.Size()
	return A{J{"a": ipBytes(n.IP), "p": ones}}
}

var routeNets = []string{"10.0.0.0/8", "10.1.0.0/16", "10.1.2.0/25", "10.1.2.128/25", "192.168.0.0/17", "0.0.0.0/0", "10.1.2.3/32", "2001:db8::/32", "2001:db8:1::/49", "::/0", "2001:db8::1/128"}
var routeIPs = []string{"10.1.2.3", "10.1.2.127", "10.1.2.128", "10.1.3.1", "10.2.0.1", "11.0.0.1", "192.168.127.255", "192.168.128.0", "2001:db8::1", "2001:db8:1:7fff::1", "2001:db8:1:8000::", "2001:db9::1", "::1", ""}
var routeNames = []string{"example.com.", "www.example.com.", "Example.Com.", "EXAMPLE.com.", "example.org.", "com.", "wwwexample.com.", "."}
var routeTexts = []string{"example.com.", "com.", "www", ".example.", "Example", "exam", ".", "x"}
var dohPaths = []string{"", "/dns-query", "/dns-query/a", "/", "/DNS-query"}
var lnNames = []string{"", "ln", "ln-a", "ln-b", "xln"}
var tlsNames = []string{"", "host.example", "a.host.example", "HOST.example"}

// routeCond fills in one of the conditions of a route, aimed at the query so that it holds or just fails.
func randRoute(r *rand.Rand, target rdns.Resolver, q J) (args func() error, j J, add func(*rdns.Router)) {
	class, clJ := "", 0
	types, tJ := []string{}, A{}
	days, dJ := []string{}, A{}
	before, after, bJ, aJ := "", "", -1, -1
	source, ecs := "", ""
	name, doh, ln, tls := pat{"any", ""}, pat{"any", ""}, pat{"any", ""}, pat{"any", ""}
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(11) {
		case 0:
			for k := 0; k < 1+r.Intn(2); k++ {
				t := []uint16{1, 28, 15, 16, 255, 65}[r.Intn(6)]
				if k == 0 && r.Intn(2) == 0 {
					t = uint16(q["t"].(int))
				}
				s := dns.TypeToString[t]
				if r.Intn(2) == 0 {
					s = strings.ToLower(s)
				}
				types = append(types, s)
				tJ = append(tJ, int(t))
			}
		case 1:
			c := r.Intn(6)
			class = []string{"IN", "INET", "CH", "HS", "NONE", "ANY"}[c]
			clJ = []int{1, 1, 3, 4, 254, 255}[c]
		case 2, 3:
			name = randPat(r, routeTexts)
		case 4:
			source = routeNets[r.Intn(len(routeNets))]
		case 5:
			ecs = routeNets[r.Intn(len(routeNets))]
		case 6:
			doh = randPat(r, dohPaths)
		case 7:
			ln = randPat(r, lnNames)
		case 8:
			tls = randPat(r, tlsNames)
		case 9:
			for k := 0; k < 1+r.Intn(3); k++ {
				d := r.Intn(7)
				days = append(days, []string{"sun", "mon", "tue", "wed", "thu", "fri", "sat"}[d])
				dJ = append(dJ, d)
			}
		case 10:
			m := q["min"].(int)
			pick := func() int {
				switch r.Intn(5) {
				case 0:
					return m
				case 1:
					return (m + 1) % 1440
				case 2:
					return (m + 1439) % 1440
				case 3:
					return (m + []int{60, 1380}[r.Intn(2)]) % 1440
				}
				return r.Intn(1440)
			}
			f := func(x int) string {
				if x%60 == 0 && r.Intn(2) == 0 {
					return fmt.Sprintf("%d", x/60)
				}
				return fmt.Sprintf("%02d:%02d", x/60, x%60)
			}
			if r.Intn(3) > 0 {
				bJ = pick()
				before = f(bJ)
			}
			if r.Intn(3) > 0 {
				aJ = pick()
				after = f(aJ)
			}
		}
	}
	inv := r.Intn(3) == 0
	j = J{"types": tJ, "class": clJ, "name": name.json(), "source": netsJ(source), "ecs": netsJ(ecs), "doh": doh.json(), "listener": ln.json(),
		"tls": tls.json(), "days": dJ, "before": bJ, "after": aJ, "inv": inv}
	add = func(rt *rdns.Router) {
		x, err := rdns.NewRoute(name.re(), class, types, days, before, after, source, ecs, doh.re(), ln.re(), tls.re(), target)
		if err != nil {
			panic(err)
		}
		x.Invert(inv)
		rt.Add(x)
	}
	return nil, j, add
}

func TestRoute(t *testing.T) {
	r := newRand(41)
	n := envInt("VERIF_N", 1000)
	time.Local = time.FixedZone("t", (r.Intn(49)-24)*1800)
	for k := 0; k < n; k++ {
		synctest.Test(t, func(t *testing.T) {
			time.Sleep(time.Duration(r.Intn(8*1440*60)) * time.Second)
			for x := 0; x < 4; x++ {
				emit(routeCase(r))
			}
		})
	}
}

func routeCase(r *rand.Rand) J {
	now := time.Now().In(time.Local)
	q := new(dns.Msg)
	q.SetQuestion(routeNames[r.Intn(len(routeNames))], []uint16{1, 28, 15, 16, 255, 65}[r.Intn(6)])
	q.Question[0].Qclass = []uint16{1, 1, 1, 3, 4, 254, 255}[r.Intn(7)]
	q.Id = uint16(r.Intn(65536))
	ecsJ := A{}
	if r.Intn(2) == 0 {
		q.SetEdns0(4096, false)
		o := q.IsEdns0()
		for x := r.Intn(3); x > 0; x-- {
			o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: 65100, Data: []byte{1}})
			ip := net.ParseIP(routeIPs[r.Intn(len(routeIPs)-1)])
			e := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 2, SourceNetmask: 128, Address: ip}
			if ip4 := ip.To4(); ip4 != nil {
				e.Family, e.SourceNetmask, e.Address = 1, 32, ip4
			}
			o.Option = append(o.Option, e)
			ecsJ = append(ecsJ, ipBytes(ip))
		}
	}
	src := net.ParseIP(routeIPs[r.Intn(len(routeIPs))])
	ci := rdns.ClientInfo{SourceIP: src, DoHPath: dohPaths[r.Intn(len(dohPaths))], Listener: lnNames[r.Intn(len(lnNames))],
		TLSServerName: tlsNames[r.Intn(len(tlsNames))], Protocol: "udp", ListenerAddr: "1.2.3.4:53"}
	qj := J{"t": int(q.Question[0].Qtype), "cl": int(q.Question[0].Qclass), "n": strBytes(q.Question[0].Name), "ecs": ecsJ, "src": ipBytes(src),
		"doh": strBytes(ci.DoHPath), "listener": strBytes(ci.Listener), "tls": strBytes(ci.TLSServerName), "day": int(now.Weekday()), "min": now.Hour()*60 + now.Minute()}
	orig := q.Copy()
	origCI := ci
	router := rdns.NewRouter("r")
	routes, asked := A{}, A{}
	unmod := true
	var retM *dns.Msg
	var retE error
	switch r.Intn(4) {
	case 0:
		retE = errors.New("x")
	case 1:
	default:
		retM = reply(q, r.Intn(6), "x. 60 IN A 1.1.1.1")
	}
	for x := 1 + r.Intn(4); x > 0; x-- {
		idx := len(routes) + 1
		_, j, add := randRoute(r, &fn{fmt.Sprintf("r%d", idx), func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			asked = append(asked, idx)
			unmod = unmod && sameQuery(q, orig) && reflect.DeepEqual(ci, origCI)
			return retM, retE
		}}, qj)
		routes = append(routes, j)
		add(router)
	}
	var want J
	if retM != nil {
		want = msgJ(retM)
	}
	a, err := router.Resolve(q, ci)
	ret := "other"
	switch {
	case len(asked) == 0 && err != nil && a == nil:
		ret = "err"
	case len(asked) > 0 && err == retE && (a == nil) == (retM == nil) && (a == nil || reflect.DeepEqual(msgJ(a), want)):
		ret = "same"
	}
	return J{"routes": routes, "q": qj, "asked": asked, "unmod": unmod, "ret": ret}
}
