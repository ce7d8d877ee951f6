package zzverif

import (
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

func halves(v uint32) A { return A{int(v >> 16), int(v & 0xffff)} }

func recJ(x dns.RR) J {
	h := x.Header()
	c := dns.Copy(x)
	j := J{"n": strBytes(h.Name), "t": int(h.Rrtype), "c": int(h.Class), "ttl": halves(h.Ttl), "ip": A{}, "x": A{}}
	switch y := x.(type) {
	case *dns.A:
		j["ip"] = bytesA(y.A.To4())
	case *dns.AAAA:
		j["ip"] = bytesA(y.AAAA.To16())
	case *dns.TXT:
		j["x"] = strBytes(strings.Join(y.Txt, ""))
	case *dns.OPT:
		j["d"] = sum(x.String())
		return j
	}
	c.Header().Name, c.Header().Ttl = ".", 0
	j["d"] = sum(c.String())
	return j
}

func recsJ(s []dns.RR) A {
	r := A{}
	for _, x := range s {
		r = append(r, recJ(x))
	}
	return r
}

func fullJ(m *dns.Msg, err error) J {
	j := J{"k": "msg", "id": 0, "hd": 0, "rc": 0, "tc": false, "qr": false, "q": 0, "an": A{}, "ns": A{}, "ex": A{}, "ede": A{}}
	switch {
	case err != nil:
		j["k"] = "err"
	case m == nil:
		j["k"] = "nil"
	default:
		h := m.MsgHdr
		h.Id = 0
		j["id"], j["hd"], j["rc"], j["tc"], j["qr"] = int(m.Id), sum(h.String()), m.Rcode, m.Truncated, m.Response
		j["q"], j["an"], j["ns"], j["ex"] = sum(fmt.Sprint(m.Question)), recsJ(m.Answer), recsJ(m.Ns), recsJ(m.Extra)
		if o := m.IsEdns0(); o != nil {
			for _, x := range o.Option {
				if e, ok := x.(*dns.EDNS0_EDE); ok {
					j["ede"] = append(j["ede"].(A), J{"code": int(e.InfoCode), "text": strBytes(e.ExtraText)})
				}
			}
		}
	}
	return j
}

// typeless is a checksum over a query leaving out its type.
func typeless(q *dns.Msg) int {
	c := q.Copy()
	c.Question[0].Qtype = 0
	return sum(c.String() + fmt.Sprint(c.Question))
}

func upQ(w int, q *dns.Msg) J {
	return J{"w": w, "qt": int(q.Question[0].Qtype), "h": typeless(q)}
}

func someTTL(r *rand.Rand) uint32 {
	return []uint32{0, 1, 30, 300, 3600, 65535, 65536, 86400, 1<<31 - 1, 1 << 31, 1<<32 - 1, uint32(r.Intn(100000)), r.Uint32()}[r.Intn(13)]
}

func transRR(r *rand.Rand, name string, qt uint16) dns.RR {
	var x dns.RR
	switch r.Intn(9) {
	case 0, 1, 2:
		x = rr(fmt.Sprintf("%s 1 IN A 10.%d.%d.%d", name, r.Intn(256), r.Intn(256), r.Intn(256)))
	case 3, 4:
		x = rr(fmt.Sprintf("%s 1 IN AAAA 2001:db8::%x", name, r.Intn(65536)))
	case 5:
		x = rr(fmt.Sprintf("%s 1 IN CNAME t%d.example.", name, r.Intn(4)))
	case 6:
		x = rr(fmt.Sprintf("%s 1 CH TXT \"x%d\"", name, r.Intn(9)))
	case 7:
		x = rr(fmt.Sprintf("%s 1 IN RRSIG %s 8 2 60 20300101000000 20200101000000 1 example. AAAA", name, dns.TypeToString[qt]))
	default:
		x = rr(fmt.Sprintf("%s 1 IN TXT \"y%d\"", name, r.Intn(9)))
	}
	x.Header().Ttl = someTTL(r)
	return x
}

func transReply(r *rand.Rand, q *dns.Msg, kinds int) (*dns.Msg, error) {
	switch r.Intn(12) {
	case 0:
		return nil, errUp
	case 1:
		return nil, nil
	}
	a := new(dns.Msg)
	a.SetReply(q)
	a.Rcode = []int{0, 0, 0, 0, 0, 0, 3, 2, 5}[r.Intn(9)]
	a.Truncated, a.RecursionAvailable, a.AuthenticatedData = r.Intn(3) == 0, r.Intn(2) == 0, r.Intn(3) == 0
	qn, qt := q.Question[0].Name, q.Question[0].Qtype
	name := func() string { return []string{qn, qn, "t1.example.", strings.ToLower(qn), "z.other."}[r.Intn(5)] }
	for k := r.Intn(6); k > 0; k-- {
		x := transRR(r, name(), qt)
		if kinds == 1 && x.Header().Rrtype == dns.TypeAAAA && r.Intn(6) > 0 {
			continue
		}
		a.Answer = append(a.Answer, x)
	}
	for k := r.Intn(3); k > 0; k-- {
		a.Ns = append(a.Ns, transRR(r, name(), qt))
	}
	for k := r.Intn(3); k > 0; k-- {
		a.Extra = append(a.Extra, transRR(r, name(), qt))
	}
	if r.Intn(2) == 0 {
		o := &dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT}}
		o.SetUDPSize(1232)
		if r.Intn(2) == 0 {
			o.SetDo()
		}
		at := r.Intn(len(a.Extra) + 1)
		a.Extra = append(a.Extra[:at], append([]dns.RR{o}, a.Extra[at:]...)...)
	}
	return a, nil
}

// parts makes a template and its description.
func parts(r *rand.Rand, n int, dot bool) (string, A) {
	s, j := "", A{}
	for k := 0; k < n; k++ {
		p := J{"k": "lit", "s": A{}, "t": A{}}
		switch r.Intn(9) {
		case 0, 1:
			t := []string{"lit", "x-", "a.b", "z"}[r.Intn(4)]
			s += t
			p["s"] = strBytes(t)
		case 2, 3:
			s += "{{ .Question }}"
			p["k"] = "name"
		case 4:
			s += "{{ .ID }}"
			p["k"] = "id"
		case 5:
			s += "{{.QuestionType}}"
			p["k"] = "type"
		case 6:
			s += "{{.QuestionClass}}"
			p["k"] = "class"
		case 7:
			f, t := []string{"a", "example", "."}[r.Intn(3)], []string{"b", "", "ex"}[r.Intn(3)]
			s += fmt.Sprintf("{{ replaceAll .Question %q %q }}", f, t)
			p["k"], p["s"], p["t"] = "all", strBytes(f), strBytes(t)
		case 8:
			f := []string{"example.", "www.", "."}[r.Intn(3)]
			if r.Intn(2) == 0 {
				s += fmt.Sprintf("{{ trimPrefix .Question %q }}", f)
				p["k"], p["s"] = "pre", strBytes(f)
			} else {
				s += fmt.Sprintf("{{ trimSuffix .Question %q }}", f)
				p["k"], p["s"] = "suf", strBytes(f)
			}
		}
		j = append(j, p)
	}
	return s, j
}

// records for a static resolver with their description
func staticRecs(r *rand.Rand, template, answer bool) ([]string, A) {
	ss, js := []string{}, A{}
	for k := r.Intn(4); k > 0; k-- {
		if !template || r.Intn(3) == 0 {
			x := transRR(r, []string{"cfg.example.", "."}[r.Intn(2)], 1)
			if !template && answer && r.Intn(3) == 0 { // without a name
				ss = append(ss, strings.TrimPrefix(x.String(), x.Header().Name))
			} else {
				ss = append(ss, x.String())
			}
			js = append(js, J{"fixed": true, "rec": recJ(x), "name": A{}, "text": A{}, "ttl": A{0, 0}})
			continue
		}
		ttl := uint32(r.Intn(1 << 20))
		text, tj := parts(r, r.Intn(4), false)
		pre := []string{"", "p."}[r.Intn(2)]
		nj := A{J{"k": "lit", "s": strBytes(pre), "t": A{}}, J{"k": "name", "s": A{}, "t": A{}}}
		ss = append(ss, fmt.Sprintf("%s{{ .Question }} %d IN TXT \"%s\"", pre, ttl, text))
		js = append(js, J{"fixed": false, "rec": 0, "name": nj, "text": tj, "ttl": halves(ttl)})
	}
	return ss, js
}

func TestTransform(t *testing.T) {
	n := envInt("VERIF_N", 200)
	r := newRand(42000)
	for k := 0; k < n; k++ {
		q := query(randCase(r, []string{"www.example.", "a.example.", "example.", "n.test."}[r.Intn(4)]), []uint16{1, 28, 28, 16, 5}[r.Intn(5)])
		q.Id = uint16(r.Intn(65536))
		q.RecursionDesired, q.CheckingDisabled = r.Intn(2) == 0, r.Intn(2) == 0
		if r.Intn(8) == 0 {
			q.Question[0].Qclass = dns.ClassCHAOS
		}
		do := false
		if r.Intn(3) == 0 {
			do = r.Intn(2) == 0
			q.SetEdns0(1232, do)
		}
		kind := r.Intn(7)
		kinds := 0
		if kind == 4 || kind == 5 { // synthesis
			kinds = 1
			q.Question[0].Qclass = 1
		}
		up, as := A{}, A{}
		el := func(w int) *fn {
			return &fn{"up", func(u *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
				up = append(up, upQ(w, u))
				a, err := transReply(r, u, kinds)
				as = append(as, fullJ(a, err))
				return a, err
			}}
		}
		one, two := el(1), el(2)
		op := J{}
		var m rdns.Resolver
		calls := 1
		switch kind {
		case 0, 1:
			lo, hi := someTTL(r), someTTL(r)
			if lo > hi && hi != 0 {
				lo, hi = hi, lo
			}
			if r.Intn(3) == 0 {
				hi = 0
			}
			if r.Intn(3) == 0 {
				lo = 0
			}
			sel := []string{"none", "lowest", "highest", "average", "first", "last", "random"}[r.Intn(7)]
			f := map[string]rdns.TTLSelectFunc{"lowest": rdns.TTLSelectLowest, "highest": rdns.TTLSelectHighest, "average": rdns.TTLSelectAverage, "first": rdns.TTLSelectFirst, "last": rdns.TTLSelectLast, "random": rdns.TTLSelectRandom}[sel]
			op = J{"k": "ttl", "sel": sel, "min": halves(lo), "max": halves(hi)}
			m = rdns.NewTTLModifier("m", one, rdns.TTLModifierOptions{SelectFunc: f, MinTTL: lo, MaxTTL: hi})
		case 2:
			if r.Intn(3) == 0 {
				op = J{"k": "minimize"}
				m = rdns.NewResponseMinimize("m", one)
				break
			}
			rc := []int{0, 3, 5}[r.Intn(3)]
			op = J{"k": "collapse", "rc": rc}
			m = rdns.NewResponseCollapse("m", one, rdns.ResponseCollapseOptions{NullRCode: rc})
		case 3:
			op = J{"k": "retry"}
			m = rdns.NewTruncateRetry("m", one, two, rdns.TruncateRetryOptions{})
		case 4, 5:
			var ps []string
			pj := A{}
			for x := r.Intn(3); x >= 0; x-- {
				l := []int{32, 40, 48, 56, 64, 96}[r.Intn(6)]
				ip := make(net.IP, 16)
				r.Read(ip)
				ip[0] = 0x20
				ip = ip.Mask(net.CIDRMask(l, 128))
				if l > 64 && r.Intn(2) == 0 {
					ip[8] = 0
				}
				ps = append(ps, fmt.Sprintf("%s/%d", ip, l))
				pj = append(pj, J{"len": l, "ip": bytesA(ip)})
			}
			if r.Intn(6) == 0 {
				ps = nil
				pj = A{J{"len": 96, "ip": bytesA(net.ParseIP("64:ff9b::"))}}
			}
			op = J{"k": "dns64", "prefixes": pj}
			x, err := rdns.NewDNS64("m", one, rdns.DNS64Options{Prefixes: ps})
			if err != nil {
				panic(err)
			}
			m = x
		case 6:
			if r.Intn(20) == 0 {
				op = J{"k": "drop"}
				m = rdns.NewDropResolver("m")
				break
			}
			calls = 2
			template := r.Intn(2) == 0
			an, anj := staticRecs(r, template, true)
			ns, nsj := staticRecs(r, template, false)
			ex, exj := staticRecs(r, template, false)
			opt := rdns.StaticResolverOptions{Answer: an, NS: ns, Extra: ex, RCode: []int{0, 3, 5}[r.Intn(3)], Truncate: r.Intn(3) == 0}
			ede := A{}
			if r.Intn(3) == 0 {
				text, tj := parts(r, r.Intn(4), false)
				code := 1 + r.Intn(30)
				e, err := rdns.NewEDNS0EDETemplate(uint16(code), text)
				if err != nil {
					panic(err)
				}
				opt.EDNS0EDETemplate = e
				ede = A{J{"code": code, "text": tj}}
			}
			op = J{"k": "static", "template": template, "an": anj, "ns": nsj, "ex": exj, "rc": opt.RCode, "tc": opt.Truncate, "ede": ede}
			var err error
			if template {
				m, err = rdns.NewStaticTemplateResolver("m", opt)
			} else {
				m, err = rdns.NewStaticResolver("m", opt)
			}
			if err != nil {
				panic(err)
			}
		}
		for c := 0; c < calls; c++ {
			if c > 0 { // another client
				q = q.Copy()
				q.Id++
				q.Question[0].Name = randCase(r, q.Question[0].Name)
			}
			keep := q.Copy()
			up, as = A{}, A{}
			qt, qc := q.Question[0].Qtype, q.Question[0].Qclass
			qj := J{"id": int(q.Id), "name": strBytes(q.Question[0].Name), "qt": int(qt), "qc": int(qc), "do": do, "q": sum(fmt.Sprint(q.Question)), "h": typeless(q),
				"ids": strBytes(strconv.Itoa(int(q.Id))), "types": strBytes(dns.TypeToString[qt]), "classes": strBytes(dns.ClassToString[qc])}
			got, err := m.Resolve(q, rdns.ClientInfo{SourceIP: net.IP{10, 0, 0, 1}})
			emit(J{"op": op, "q": qj, "up": up, "a": as, "got": fullJ(got, err), "open": A{}, "untouched": sameMsg(q, keep) && q.String() == keep.String()})
			if got != nil && calls > 1 { // what happens to one response must not show in the next
				for _, s := range [][]dns.RR{got.Answer, got.Ns, got.Extra} {
					for _, x := range s {
						x.Header().Ttl = 7
						x.Header().Name = "spoiled."
						switch y := x.(type) {
						case *dns.A:
							copy(y.A, net.IP{6, 6, 6, 6})
							y.A = net.IP{6, 6, 6, 6}
						case *dns.TXT:
							if len(y.Txt) > 0 {
								y.Txt[0] = "spoiled"
							}
						}
					}
				}
			}
		}
	}
}

// TestProbe orders real addresses, some with a listener.
func TestProbe(t *testing.T) {
	n := envInt("VERIF_N", 40)
	r := newRand(43000)
	port := freePort()
	open := map[string]bool{}
	for k := 1; k <= 6; k++ {
		ip := fmt.Sprintf("127.3.0.%d", k)
		l, err := net.Listen("tcp", net.JoinHostPort(ip, strconv.Itoa(port)))
		if err != nil {
			panic(err)
		}
		defer l.Close()
		open[ip] = true
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				c.Close()
			}
		}()
	}
	if l, err := net.Listen("tcp6", net.JoinHostPort("::1", strconv.Itoa(port))); err == nil {
		defer l.Close()
		open["::1"] = true
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				c.Close()
			}
		}()
	}
	openJ := A{}
	for k := 1; k <= 6; k++ {
		openJ = append(openJ, A{127, 3, 0, k})
	}
	if open["::1"] {
		openJ = append(openJ, bytesA(net.ParseIP("::1")))
	}
	for k := 0; k < n; k++ {
		q := query("probe.example.", []uint16{1, 1, 1, 28, 16}[r.Intn(5)])
		q.Id = uint16(r.Intn(65536))
		up, as := A{}, A{}
		mode := r.Intn(3) // all open, all closed, mixed
		one := &fn{"up", func(u *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
			up = append(up, upQ(1, u))
			a, err := transReply(r, u, 0)
			if a != nil {
				a.Answer = without(a.Answer, func(x dns.RR) bool { return x.Header().Rrtype == dns.TypeA || x.Header().Rrtype == dns.TypeAAAA })
				cnt := r.Intn(6)
				if r.Intn(15) == 0 {
					cnt = 30 + r.Intn(8)
				}
				for ; cnt > 0; cnt-- {
					s := 1 + r.Intn(6)
					if mode == 1 || (mode == 2 && r.Intn(2) == 0) {
						s += 100
					}
					x := rr(fmt.Sprintf("probe.example. %d IN A 127.3.0.%d", r.Intn(5000), s))
					if u.Question[0].Qtype == 28 || r.Intn(10) == 0 {
						v6 := "::1"
						if s > 100 || !open["::1"] {
							v6 = fmt.Sprintf("fe80::%d", s) // nothing there, and known at once
						}
						x = rr(fmt.Sprintf("probe.example. %d IN AAAA %s", r.Intn(5000), v6))
					}
					at := r.Intn(len(a.Answer) + 1)
					a.Answer = append(a.Answer[:at], append([]dns.RR{x}, a.Answer[at:]...)...)
				}
			}
			as = append(as, fullJ(a, err))
			return a, err
		}}
		min := []uint32{0, 1800, 1 << 20}[r.Intn(3)]
		all := r.Intn(2) == 0
		m := rdns.NewFastestTCP("m", one, rdns.FastestTCPOptions{Port: port, WaitAll: all, SuccessTTLMin: min})
		keep := q.Copy()
		qj := J{"id": int(q.Id), "name": strBytes(q.Question[0].Name), "qt": int(q.Question[0].Qtype), "qc": 1, "do": false, "q": sum(fmt.Sprint(q.Question)), "h": typeless(q), "ids": A{}, "types": A{}, "classes": A{}}
		got, err := m.Resolve(q, rdns.ClientInfo{SourceIP: net.IP{10, 0, 0, 1}})
		emit(J{"op": J{"k": "probe", "all": all, "min": halves(min)}, "q": qj, "up": up, "a": as, "got": fullJ(got, err), "open": openJ, "untouched": sameMsg(q, keep)})
	}
}
