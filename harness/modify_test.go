package zzverif

import (
	"fmt"
	"hash/crc32"
	"math/rand"
	"net"
	"regexp"
	"strings"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// wireJ is a query as it would leave: raw options, a checksum over everything but the name and these.
func wireJ(m *dns.Msg) J {
	m = m.Copy()
	b, err := m.Pack()
	if err != nil {
		return J{"head": -1, "name": A{}, "opt": A{}}
	}
	u := new(dns.Msg)
	if err := u.Unpack(b); err != nil {
		return J{"head": -2, "name": A{}, "opt": A{}}
	}
	opt := A{}
	for _, x := range u.Extra {
		o, ok := x.(*dns.OPT)
		if !ok {
			continue
		}
		raw := make([]byte, dns.Len(o)+16)
		n, err := dns.PackRR(o, raw, 0, nil, false)
		if err != nil {
			panic(err)
		}
		d := raw[11:n]
		opts := A{}
		for len(d) >= 4 {
			l := int(d[2])<<8 | int(d[3])
			opts = append(opts, J{"code": int(d[0])<<8 | int(d[1]), "data": bytesA(d[4 : 4+l])})
			d = d[4+l:]
		}
		opt = append(opt, J{"size": int(o.UDPSize()), "do": o.Do(), "ver": int(o.Version()), "opts": opts})
	}
	c := u.Copy()
	c.Question[0].Name = "."
	c.Extra = without(c.Extra, func(x dns.RR) bool { return x.Header().Rrtype == dns.TypeOPT })
	return J{"head": sum(c.String()), "name": strBytes(u.Question[0].Name), "opt": opt}
}

func sum(s string) int { return int(crc32.ChecksumIEEE([]byte(s)) >> 1) }

func bytesA(b []byte) A {
	r := A{}
	for _, x := range b {
		r = append(r, int(x))
	}
	return r
}

// replyJ is a response with the names that matter apart from the rest.
func replyNamesJ(m *dns.Msg, err error) J {
	j := J{"k": "msg", "head": 0, "qn": A{}, "an": A{}}
	switch {
	case err != nil:
		j["k"] = "err"
	case m == nil:
		j["k"] = "nil"
	default:
		c := m.Copy()
		for i := range c.Question {
			j["qn"] = append(j["qn"].(A), strBytes(c.Question[i].Name))
			c.Question[i].Name = "."
		}
		for _, x := range c.Answer {
			n := x.Header().Name
			x.Header().Name = "."
			j["an"] = append(j["an"].(A), J{"name": strBytes(n), "h": sum(x.String())})
		}
		c.Answer = nil
		j["head"] = sum(c.String())
	}
	return j
}

func randIP(r *rand.Rand) net.IP {
	n := 4
	if r.Intn(2) == 0 {
		n = 16
	}
	ip := make(net.IP, n)
	for i := range ip {
		ip[i] = []byte{0, 1, 127, 128, 255, byte(r.Intn(256))}[r.Intn(6)]
	}
	if n == 16 {
		ip[0] = 0x20
	}
	return ip
}

func randEDNS(r *rand.Rand, q *dns.Msg) {
	if r.Intn(5) == 0 {
		return
	}
	q.SetEdns0(uint16(512+r.Intn(4000)), r.Intn(2) == 0)
	o := q.IsEdns0()
	for k := r.Intn(5); k > 0; k-- {
		switch r.Intn(8) {
		case 0:
			o.Option = append(o.Option, &dns.EDNS0_PADDING{Padding: make([]byte, r.Intn(30))})
		case 1:
			o.Option = append(o.Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0123456789abcdef"})
		case 2:
			o.Option = append(o.Option, &dns.EDNS0_NSID{Code: dns.EDNS0NSID, Nsid: "ab"})
		case 3:
			o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: uint16(65001 + r.Intn(3)), Data: make([]byte, r.Intn(5))})
		default:
			ip := randIP(r)
			p := r.Intn(len(ip)*8 + 1)
			fam := uint16(1)
			if len(ip) == 16 {
				fam = 2
			}
			if r.Intn(12) == 0 {
				fam, p, ip = 0, 0, net.IP{0, 0, 0, 0}
			}
			o.Option = append(o.Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: fam, SourceNetmask: uint8(p), SourceScope: uint8(r.Intn(3)), Address: ip.Mask(net.CIDRMask(p, len(ip)*8))})
		}
	}
	if r.Intn(4) == 0 { // the option record need not be the last one
		q.Extra = append(q.Extra, rr("x.example. 5 IN TXT \"after\""))
	}
}

func prefixes(r *rand.Rand) (uint8, uint8) {
	p4 := []int{0, 1, 8, 20, 24, 31, 32, r.Intn(33)}[r.Intn(8)]
	p6 := []int{0, 1, 48, 56, 64, 127, 128, r.Intn(129)}[r.Intn(8)]
	return uint8(p4), uint8(p6)
}

var replaceNames = []string{"host.", "www.old.example.", "old.example.", "a.old.example.old.", "x.www.old.example.", "oldold.example.", "new.example.", "host.lab.example.", "MiXed.Old.Example.", "."}

func randExps(r *rand.Rand) (ops []rdns.ReplaceOperation, j A) {
	j = A{}
	lits := []string{"old", ".old.", "old.example.", "www.", "host", "example.", "a", "new", "MiXed."}
	to := []string{"new", "lab.example.", "x.", ".", "", "old", "oldold", "NeW."}
	for k := 1 + r.Intn(3); k > 0; k-- {
		l, t := lits[r.Intn(len(lits))], to[r.Intn(len(to))]
		kind := []string{"all", "prefix", "suffix", "exact", "append"}[r.Intn(5)]
		from := regexp.QuoteMeta(l)
		switch kind {
		case "prefix":
			from = "^" + from
		case "suffix":
			from += "$"
		case "exact":
			l = replaceNames[r.Intn(len(replaceNames))]
			from = "^" + regexp.QuoteMeta(l) + "$"
			t = []string{"new.example.", "other.", "MiXed.new.example."}[r.Intn(3)]
		case "append":
			from = `^([^.]+)\.$`
			t = []string{"lab.example.", "b."}[r.Intn(2)]
		}
		j = append(j, J{"k": kind, "s": strBytes(l), "t": strBytes(t)})
		if kind == "append" {
			t = "${1}." + t
		}
		ops = append(ops, rdns.ReplaceOperation{From: from, To: t})
	}
	return
}

func TestModify(t *testing.T) {
	n := envInt("VERIF_N", 200)
	r := newRand(41000)
	for k := 0; k < n; k++ {
		q := query(randCase(r, fmt.Sprintf("n%d.example.", r.Intn(9))), []uint16{1, 28, 16, 65}[r.Intn(4)])
		q.Id = uint16(r.Intn(65536))
		q.RecursionDesired, q.CheckingDisabled, q.AuthenticatedData = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		randEDNS(r, q)
		src := randIP(r)
		ci := rdns.ClientInfo{SourceIP: src, Listener: fmt.Sprintf("l%d", k), DoHPath: "/x", TLSServerName: "sni"}
		if len(src) == 4 && r.Intn(2) == 0 {
			ci.SourceIP = src.To16()
		}
		var a *dns.Msg
		var aerr error
		var seen A
		sameci := true
		up := &fn{"up", func(u *dns.Msg, c rdns.ClientInfo) (*dns.Msg, error) {
			seen = append(seen, wireJ(u))
			sameci = sameci && fmt.Sprint(c) == fmt.Sprint(ci)
			switch r.Intn(8) {
			case 0:
				aerr = errUp
			case 1:
			default:
				a = new(dns.Msg)
				a.SetReply(u)
				a.Rcode = []int{0, 0, 0, 3, 2}[r.Intn(5)]
				for x := r.Intn(4); x > 0; x-- {
					name := u.Question[0].Name
					switch r.Intn(5) {
					case 0:
						name = "other.example."
					case 1:
						name = strings.ToLower(name)
					case 2:
						name = randCase(r, strings.ToLower(name))
					case 3:
						name = "sub." + strings.TrimPrefix(name, ".")
					}
					a.Answer = append(a.Answer, randRR(r, name))
				}
				if r.Intn(3) == 0 {
					a.Ns = append(a.Ns, randRR(r, u.Question[0].Name))
				}
				if r.Intn(3) == 0 {
					a.Extra = append(a.Extra, randRR(r, u.Question[0].Name))
				}
				if r.Intn(2) == 0 {
					a.SetEdns0(1232, true)
				}
				if r.Intn(10) == 0 {
					a.Question = nil
				}
			}
			if a == nil {
				return nil, aerr
			}
			return a.Copy(), aerr
		}}
		op := J{"k": "none", "addr": A{}, "p4": 0, "p6": 0, "code": 0, "data": A{}, "exps": A{}}
		p4, p6 := prefixes(r)
		op["p4"], op["p6"] = int(p4), int(p6)
		var addr net.IP
		if r.Intn(2) == 0 {
			addr = randIP(r)
			op["addr"] = bytesA(addr)
			if len(addr) == 4 && r.Intn(2) == 0 {
				addr = addr.To16()
			}
		}
		code := []uint16{65001, 65002, dns.EDNS0COOKIE, dns.EDNS0SUBNET, 65400, dns.EDNS0PADDING}[r.Intn(6)]
		data := make([]byte, r.Intn(6))
		r.Read(data)
		var el rdns.Resolver
		var err error
		switch r.Intn(9) {
		case 0:
			if r.Intn(4) == 0 {
				el, err = rdns.NewECSModifier("m", up, nil)
				break
			}
			op["k"] = "ecs-del"
			el, err = rdns.NewECSModifier("m", up, rdns.ECSModifierDelete)
		case 1:
			op["k"] = "ecs-add"
			el, err = rdns.NewECSModifier("m", up, rdns.ECSModifierAdd(addr, p4, p6))
		case 2:
			op["k"] = "ecs-miss"
			el, err = rdns.NewECSModifier("m", up, rdns.ECSModifierAddIfMissing(addr, p4, p6))
		case 3, 4:
			op["k"] = "ecs-priv"
			el, err = rdns.NewECSModifier("m", up, rdns.ECSModifierPrivacy(p4, p6))
		case 5:
			op["k"], op["code"] = "edns-del", int(code)
			el, err = rdns.NewEDNS0Modifier("m", up, rdns.EDNS0ModifierDelete(code))
		case 6:
			if code == dns.EDNS0SUBNET || code == dns.EDNS0COOKIE || code == dns.EDNS0PADDING { // these have to be well-formed
				code = 65400
			}
			op["k"], op["code"], op["data"] = "edns-add", int(code), bytesA(data)
			el, err = rdns.NewEDNS0Modifier("m", up, rdns.EDNS0ModifierAdd(code, data))
		default:
			ops, j := randExps(r)
			op["k"], op["exps"] = "replace", j
			q.Question[0].Name = replaceNames[r.Intn(len(replaceNames))]
			if r.Intn(4) == 0 {
				q.Question[0].Name = randCase(r, q.Question[0].Name)
			}
			name := q.Question[0].Name
			for _, o := range ops {
				name = regexp.MustCompile(o.From).ReplaceAllString(name, o.To)
			}
			if _, ok := dns.IsDomainName(name); !ok || !strings.HasSuffix(name, ".") || strings.Contains(name, "..") || (len(name) > 1 && name[0] == '.') {
				continue
			}
			el, err = rdns.NewReplace("m", up, ops...)
		}
		if err != nil {
			panic(err)
		}
		qJ := wireJ(q)
		keep := q.Copy()
		got, gerr := el.Resolve(q, ci)
		if seen == nil {
			seen = A{}
		}
		emit(J{"op": op, "q": qJ, "src": bytesA(src), "up": seen, "untouched": sameMsg(q, keep) && q.String() == keep.String(), "sameci": sameci, "a": replyNamesJ(a, aerr), "got": replyNamesJ(got, gerr)})
	}
}
