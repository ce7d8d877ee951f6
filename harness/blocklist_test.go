package zzverif

import (
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"strings"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

func labelsOf(name string) A {
	r := A{}
	for _, l := range dns.SplitDomainName(name) {
		r = append(r, strBytes(l))
	}
	return r
}

func nameJ(name string) J { return J{"l": labelsOf(name), "txt": strBytes(name)} }

// ruleText renders a domain rule the way lists do.
func ruleText(k, name string) string {
	return map[string]string{"exact": "", "sub": ".", "below": "*."}[k] + name
}

var ruleKinds = []string{"exact", "sub", "below"}

func domNames(labels []string, depth int) []string {
	all := []string{}
	cur := labels
	for d := 1; d <= depth; d++ {
		all = append(all, cur...)
		var next []string
		for _, l := range labels {
			for _, n := range cur {
				next = append(next, l+"."+n)
			}
		}
		cur = next
	}
	return all
}

func domainRecord(sub bool, rules [][2]string, names []string) J {
	var txt []string
	rj := A{}
	for _, r := range rules {
		txt = append(txt, ruleText(r[0], r[1]))
		rj = append(rj, J{"k": r[0], "l": labelsOf(r[1])})
	}
	mk := rdns.NewDomainDB
	if sub {
		mk = rdns.NewDomainSubdomainDB
	}
	db, err := mk("l", rdns.NewStaticLoader(txt))
	if err != nil {
		panic(err)
	}
	nj, hit := A{}, A{}
	for _, n := range names {
		_, _, _, ok := db.Match(query(n+".", 1))
		nj = append(nj, labelsOf(n))
		hit = append(hit, ok)
	}
	return J{"k": "domain", "sub": sub, "rules": rj, "names": nj, "hit": hit}
}

// TestDomainExhaustive: every ordered list of 2 rules over names up to depth 3 and of 3 rules up to
// depth 2, against every name one level deeper.
func TestDomainExhaustive(t *testing.T) {
	mkRules := func(depth int) [][2]string {
		var rs [][2]string
		for _, n := range domNames([]string{"a", "b"}, depth) {
			for _, k := range ruleKinds {
				rs = append(rs, [2]string{k, n})
			}
		}
		return rs
	}
	deep, flat := mkRules(3), mkRules(2)
	n4, n3 := domNames([]string{"a", "b"}, 4), domNames([]string{"a", "b"}, 3)
	for _, a := range deep {
		for _, b := range deep {
			emit(domainRecord(false, [][2]string{a, b}, n4))
		}
	}
	for _, a := range flat {
		for _, b := range flat {
			for _, c := range flat {
				emit(domainRecord(false, [][2]string{a, b, c}, n3))
			}
			emit(domainRecord(true, [][2]string{a, b}, n3))
		}
	}
}

func TestNetExhaustive(t *testing.T) {
	type nw struct {
		s string
		j J
	}
	gen := func(v6 bool) ([]nw, []net.IP) {
		var ns []nw
		var ips []net.IP
		for p := 0; p <= 3; p++ {
			for v := 0; v < 1<<p; v++ {
				if v6 { // the last bits of a /125
					if p == 0 {
						continue
					}
					ip := net.ParseIP(fmt.Sprintf("2001:db8::%x", 8+v<<(3-p)))
					ns = append(ns, nw{fmt.Sprintf("%s/%d", ip, 125+p), J{"a": ipBytes(ip), "p": 125 + p}})
				} else {
					ip := net.IPv4(byte(v<<(8-p)), 0, 0, 0)
					ns = append(ns, nw{fmt.Sprintf("%s/%d", ip, p), J{"a": ipBytes(ip), "p": p}})
				}
			}
		}
		for v := 0; v < 8; v++ {
			if v6 {
				ips = append(ips, net.ParseIP(fmt.Sprintf("2001:db8::%x", 8+v)))
			} else {
				ips = append(ips, net.IPv4(byte(v<<5), 0, 0, 0), net.IPv4(byte(v<<5+31), 255, 255, 255).To4())
			}
		}
		if v6 {
			ips = append(ips, net.ParseIP("2001:db8::7"), net.ParseIP("2001:db8::10"), net.ParseIP("0.0.0.8"))
		} else {
			ips = append(ips, net.ParseIP("::1"))
		}
		return ns, ips
	}
	for _, v6 := range []bool{false, true} {
		ns, ips := gen(v6)
		for a := range ns {
			for b := range ns {
				for c := range ns {
					rules := []string{ns[a].s, ns[b].s, ns[c].s}
					db, err := rdns.NewCidrDB("l", rdns.NewStaticLoader(rules))
					if err != nil {
						panic(err)
					}
					ij, hit := A{}, A{}
					for _, ip := range ips {
						_, ok := db.Match(ip)
						ij = append(ij, ipBytes(ip))
						hit = append(hit, ok)
					}
					emit(J{"k": "net", "nets": A{ns[a].j, ns[b].j, ns[c].j}, "ips": ij, "hit": hit})
				}
			}
		}
	}
}

var blNames = []string{"com", "example.com", "www.example.com", "a.www.example.com", "ample.com", "xexample.com", "org", "example.org", "b.example.org", "ads.net", "x.ads.net", `w\.example.com`}
var blMACs = [][]byte{{1, 2, 3, 4, 5, 6}, {1, 2, 3, 4, 5, 7}, {0xab, 0xcd, 0xef, 1, 2, 3}}
var blHostIPs = []string{"192.0.2.1", "192.0.2.2", "0.0.0.0", "127.0.0.1", "2001:db8::1", "2001:db8::2", "::", "::1"}

func dress(r *rand.Rand, s string) string {
	s = randCase(r, s)
	if r.Intn(4) == 0 {
		s += "."
	}
	if r.Intn(6) == 0 {
		s = "  " + s + "\t"
	}
	return s
}

// randList makes a list of a format: the database and its description.
func randList(r *rand.Rand, f string) (rdns.BlocklistDB, J) {
	var txt []string
	rj := A{}
	n := 1 + r.Intn(5)
	for x := 0; x < n; x++ {
		name := blNames[r.Intn(len(blNames))]
		switch f {
		case "domain", "domainsub":
			k := ruleKinds[r.Intn(3)]
			txt = append(txt, dress(r, ruleText(k, name)))
			rj = append(rj, J{"k": k, "l": labelsOf(name)})
		case "regexp":
			p := pat{[]string{"exact", "prefix", "suffix", "contains"}[r.Intn(4)], []string{name + ".", name, "." + name + ".", "ads", "e"}[r.Intn(5)]}
			txt = append(txt, []string{"", " "}[r.Intn(2)]+p.re())
			if r.Intn(4) == 0 {
				txt = append(txt, "# comment", "")
			}
			rj = append(rj, p.json())
		case "mac":
			m := blMACs[r.Intn(len(blMACs))]
			s := net.HardwareAddr(m).String()
			if r.Intn(2) == 0 {
				s = strings.ToUpper(s)
			}
			txt = append(txt, s)
			b := A{}
			for _, y := range m {
				b = append(b, int(y))
			}
			rj = append(rj, b)
		case "hosts":
			ip := net.ParseIP(blHostIPs[r.Intn(len(blHostIPs))])
			var names []string
			for _, y := range r.Perm(len(blNames))[:1+r.Intn(2)] {
				names = append(names, blNames[y])
			}
			line := ip.String()
			lj, nj := A{}, A{}
			for _, y := range names {
				d := strings.TrimSpace(dress(r, y))
				line += []string{" ", "\t", "  "}[r.Intn(3)] + d
				lj = append(lj, labelsOf(y))
				nj = append(nj, strBytes(strings.TrimSuffix(d, ".")))
			}
			rev, _ := dns.ReverseAddr(ip.String())
			ipj := ipBytes(ip)
			if ip.IsUnspecified() {
				ipj = A{}
			}
			txt = append(txt, line)
			if r.Intn(5) == 0 {
				txt = append(txt, "# 192.0.2.9 example.com", "", "192.0.2.7")
			}
			rj = append(rj, J{"ip": ipj, "labels": lj, "names": nj, "rev": labelsOf(rev)})
		}
	}
	ld := rdns.NewStaticLoader(txt)
	var db rdns.BlocklistDB
	var err error
	switch f {
	case "domain":
		db, err = rdns.NewDomainDB("l", ld)
	case "domainsub":
		db, err = rdns.NewDomainSubdomainDB("l", ld)
	case "regexp":
		db, err = rdns.NewRegexpDB("l", ld)
	case "mac":
		db, err = rdns.NewMACDB("l", ld)
	case "hosts":
		db, err = rdns.NewHostsDB("l", ld)
	}
	if err != nil {
		panic(err)
	}
	return db, J{"f": f, "rules": rj}
}

func randLists(r *rand.Rand, formats []string, max int) (rdns.BlocklistDB, A) {
	var dbs []rdns.BlocklistDB
	lj := A{}
	for x := 1 + r.Intn(max); x > 0; x-- {
		db, j := randList(r, formats[r.Intn(len(formats))])
		dbs = append(dbs, db)
		lj = append(lj, j)
	}
	if len(dbs) == 1 && r.Intn(2) == 0 {
		return dbs[0], lj
	}
	m, err := rdns.NewMultiDB(dbs...)
	if err != nil {
		panic(err)
	}
	if r.Intn(3) == 0 { // a reloaded list is the same list
		n, err := m.Reload()
		if err != nil {
			panic(err)
		}
		return n, lj
	}
	return m, lj
}

// spy is a set of resolvers that record what reaches them.
type spy struct {
	orig  *dns.Msg
	ci    rdns.ClientInfo
	asked A
	unmod bool
	rets  map[string]*dns.Msg
	errs  map[string]error
	wants map[string]J
}

func newSpy(q *dns.Msg, ci rdns.ClientInfo) *spy {
	return &spy{orig: q.Copy(), ci: ci, asked: A{}, unmod: true, rets: map[string]*dns.Msg{}, errs: map[string]error{}, wants: map[string]J{}}
}

func (s *spy) resolver(who string, m *dns.Msg, err error) rdns.Resolver {
	s.rets[who], s.errs[who] = m, err
	s.wants[who] = retJ(m, err)
	return &fn{who, func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		s.asked = append(s.asked, who)
		s.unmod = s.unmod && sameQuery(q, s.orig) && reflect.DeepEqual(ci, s.ci)
		return m, err
	}}
}

// verdict describes what came back: "same" as the only resolver asked said, "alt" as the second
// one said, or the element's "own" reply.
func (s *spy) verdict(a *dns.Msg, err error) J {
	j := J{"k": "other", "rc": 0, "an": A{}, "priv": false, "xs": A{}}
	got := retJ(a, err)
	if len(s.asked) > 0 && reflect.DeepEqual(got, s.wants[s.asked[len(s.asked)-1].(string)]) && err == s.errs[s.asked[len(s.asked)-1].(string)] {
		j["k"] = "same"
		if len(s.asked) > 1 {
			j["k"] = "alt"
		}
	}
	if a == nil || err != nil {
		return j
	}
	j["rc"] = a.Rcode
	j["priv"] = a.Id == s.orig.Id && len(a.Question) == 1 && a.Question[0] == s.orig.Question[0] && a.Response
	an := A{}
	for _, x := range a.Answer {
		e := J{"t": int(x.Header().Rrtype), "d": strBytes(x.String())}
		switch y := x.(type) {
		case *dns.A:
			e["d"] = ipBytes(y.A)
		case *dns.AAAA:
			e["d"] = ipBytes(y.AAAA)
		case *dns.PTR:
			e["d"] = strBytes(strings.TrimSuffix(y.Ptr, "."))
		}
		if x.Header().Name != s.orig.Question[0].Name {
			e["t"] = 0
		}
		an = append(an, e)
	}
	j["an"] = an
	j["xs"] = xsJ(a)
	if j["k"] == "other" {
		j["k"] = "part"
		if len(a.Ns) == 0 && len(xsJ(a)) == len(a.Answer) {
			j["k"] = "own"
		}
	}
	return j
}

func xsJ(a *dns.Msg) A {
	r := A{}
	for s, rrs := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		for _, x := range rrs {
			if _, ok := x.(*dns.OPT); !ok {
				r = append(r, A{[]string{"an", "ns", "ex"}[s], x.String()})
			}
		}
	}
	return r
}

func upReply(r *rand.Rand, q *dns.Msg, ip string) (*dns.Msg, error) {
	switch r.Intn(8) {
	case 0:
		return nil, errUp
	case 1:
		return nil, nil
	}
	return reply(q, []int{0, 0, 0, 3, 2}[r.Intn(5)], q.Question[0].Name+" 60 IN A "+ip), nil
}

func TestBlocklist(t *testing.T) {
	r := newRand(51)
	for k := 0; k < envInt("VERIF_N", 500); k++ {
		formats := []string{"domain", "domain", "domainsub", "regexp", "hosts", "hosts", "mac"}
		db, bj := randLists(r, formats, 3)
		opt := rdns.BlocklistOptions{BlocklistDB: db}
		aj := A{}
		if r.Intn(2) == 0 {
			opt.AllowlistDB, aj = randLists(r, formats, 2)
		}
		for x := 0; x < 4; x++ {
			emit(blocklistCase(r, opt, bj, aj))
		}
	}
}

func blocklistCase(r *rand.Rand, opt rdns.BlocklistOptions, bj, aj A) J {
	n := blNames[r.Intn(len(blNames))] + "."
	if r.Intn(4) == 0 {
		n = "z." + n
	}
	typ := []uint16{1, 1, 28, 28, 16, 12, 255}[r.Intn(7)]
	if typ == dns.TypePTR && r.Intn(4) > 0 {
		n, _ = dns.ReverseAddr(blHostIPs[r.Intn(len(blHostIPs))])
	}
	q := query(randCase(r, n), typ)
	q.Id = uint16(r.Intn(65536))
	mac := A{}
	if r.Intn(2) == 0 {
		q.SetEdns0(1232, false)
		o := q.IsEdns0()
		if r.Intn(3) > 0 {
			m := blMACs[r.Intn(len(blMACs))]
			o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: 65002, Data: blMACs[r.Intn(3)]}, &dns.EDNS0_LOCAL{Code: 65001, Data: m})
			for _, y := range m {
				mac = append(mac, int(y))
			}
		}
	}
	ci := rdns.ClientInfo{SourceIP: net.ParseIP("192.0.2.77"), Listener: "ln"}
	s := newSpy(q, ci)
	um, ue := upReply(r, q, "198.51.100.1")
	up := s.resolver("up", um, ue)
	opt.BlocklistResolver, opt.AllowListResolver = nil, nil
	if r.Intn(3) == 0 {
		m, e := upReply(r, q, "198.51.100.2")
		opt.BlocklistResolver = s.resolver("block", m, e)
	}
	if r.Intn(3) == 0 {
		m, e := upReply(r, q, "198.51.100.3")
		opt.AllowListResolver = s.resolver("allow", m, e)
	}
	bl, err := rdns.NewBlocklist("b", up, opt)
	if err != nil {
		panic(err)
	}
	a, rerr := bl.Resolve(q, ci)
	qj := nameJ(strings.ToLower(n))
	qj["txt"] = strBytes(s.orig.Question[0].Name)
	qj["l"] = labelsOf(s.orig.Question[0].Name)
	qj["t"], qj["mac"] = int(typ), mac
	return J{"k": "query", "allow": aj, "block": bj, "allowres": opt.AllowListResolver != nil, "blockres": opt.BlocklistResolver != nil,
		"q": qj, "asked": s.asked, "unmod": s.unmod, "ret": s.verdict(a, rerr)}
}

var ipRules = []string{"10.0.0.0/8", "10.1.0.0/16", "10.1.2.0/24", "10.1.2.3/32", "10.1.2.3", "192.168.128.0/17", "0.0.0.0/1", "172.16.5.9/12", "2001:db8::/32",
	"2001:db8:1::/48", "2001:db8::1", "2001:db8:8000::/33", "::/1", "0.0.0.0/0", "::/0", "fe80::/10", "255.255.255.255", "::ffff:10.9.0.0/112", "::ffff:10.8.1.1"}
var ipProbes = []string{"10.1.2.3", "10.1.2.4", "10.1.3.1", "10.2.0.1", "11.0.0.0", "9.255.255.255", "192.168.127.255", "192.168.128.0", "192.168.255.255", "172.16.0.1", "172.32.0.0",
	"127.255.255.255", "128.0.0.0", "2001:db8::1", "2001:db8::2", "2001:db8:7fff::", "2001:db8:8000::", "2001:db9::", "2001:db8:1::5", "7fff::", "8000::", "febf::1", "fec0::1", "255.255.255.255", "0.0.0.0", "::",
	"10.9.0.7", "10.8.1.1", "10.8.1.2"}

func randIPList(r *rand.Rand) (rdns.IPBlocklistDB, A) {
	var dbs []rdns.IPBlocklistDB
	nj := A{}
	for d := 1 + r.Intn(2); d > 0; d-- {
		var txt []string
		for x := r.Intn(4); x >= 0; x-- {
			s := ipRules[r.Intn(len(ipRules))]
			if strings.HasSuffix(s, "/0") && r.Intn(4) > 0 {
				continue
			}
			txt = append(txt, []string{"", " "}[r.Intn(2)]+s, "# comment")
			full := s
			if !strings.Contains(s, "/") {
				full += map[bool]string{true: "/32", false: "/128"}[strings.Contains(s, ".") && !strings.Contains(s, ":")]
			}
			ip, n, err := net.ParseCIDR(full)
			if err != nil {
				panic(err)
			}
			ones, _ := n.Mask.Size()
			if ip.To4() != nil && strings.Contains(s, ":") {
				ones -= 96
			}
			nj = append(nj, J{"a": ipBytes(n.IP), "p": ones})
		}
		db, err := rdns.NewCidrDB("l", rdns.NewStaticLoader(txt))
		if err != nil {
			panic(err)
		}
		dbs = append(dbs, db)
	}
	if len(dbs) == 1 {
		return dbs[0], nj
	}
	m, _ := rdns.NewMultiIPDB(dbs...)
	if r.Intn(3) == 0 {
		n, err := m.Reload()
		if err != nil {
			panic(err)
		}
		return n, nj
	}
	return m, nj
}

func TestClientBlocklist(t *testing.T) {
	r := newRand(52)
	for k := 0; k < envInt("VERIF_N", 500); k++ {
		db, nj := randIPList(r)
		for x := 0; x < 3; x++ {
			q := query("example.com.", 1)
			q.Id = uint16(r.Intn(65536))
			src := net.ParseIP(ipProbes[r.Intn(len(ipProbes))])
			if r.Intn(2) == 0 && src.To4() != nil {
				src = src.To4()
			}
			srcJ := ipBytes(src)
			if r.Intn(20) == 0 {
				src, srcJ = nil, A{}
			}
			ecsJ := A{}
			if r.Intn(2) == 0 {
				q.SetEdns0(1232, false)
				if r.Intn(4) > 0 {
					ip := net.ParseIP(ipProbes[r.Intn(len(ipProbes))])
					e := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 2, SourceNetmask: 128, Address: ip}
					if ip4 := ip.To4(); ip4 != nil {
						e.Family, e.SourceNetmask, e.Address = 1, 32, ip4
					}
					q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_LOCAL{Code: 65100, Data: []byte{1}}, e)
					ecsJ = append(ecsJ, ipBytes(ip))
				}
			}
			ci := rdns.ClientInfo{SourceIP: src, Listener: "ln"}
			s := newSpy(q, ci)
			um, ue := upReply(r, q, "198.51.100.1")
			opt := rdns.ClientBlocklistOptions{BlocklistDB: db, UseECS: r.Intn(2) == 0}
			if r.Intn(3) == 0 {
				m, e := upReply(r, q, "198.51.100.2")
				opt.BlocklistResolver = s.resolver("block", m, e)
			}
			bl, err := rdns.NewClientBlocklist("b", s.resolver("up", um, ue), opt)
			if err != nil {
				panic(err)
			}
			a, rerr := bl.Resolve(q, ci)
			emit(J{"k": "client", "nets": nj, "useecs": opt.UseECS, "ecs": ecsJ, "src": srcJ, "blockres": opt.BlocklistResolver != nil,
				"asked": s.asked, "unmod": s.unmod, "ret": s.verdict(a, rerr)})
		}
	}
}

// randResponse builds a response with addresses and names in all sections.
func randResponse(r *rand.Rand, q *dns.Msg, names bool) (*dns.Msg, A) {
	a := reply(q, []int{0, 0, 0, 0, 0, 3, 2}[r.Intn(7)])
	rj := A{}
	for s, sec := range []*[]dns.RR{&a.Answer, &a.Ns, &a.Extra} {
		for x := r.Intn(3); x > 0; x-- {
			e := J{"s": []string{"an", "ns", "ex"}[s], "ip": A{}, "txts": A{}}
			var y dns.RR
			n := randCase(r, blNames[r.Intn(len(blNames))]+".")
			ttl := 60 + r.Intn(1000)
			txts := []string{n}
			kind := r.Intn(12)
			if !names && r.Intn(3) > 0 {
				kind = 10
			}
			switch kind {
			case 0:
				y = rr(fmt.Sprintf("o. %d IN CNAME %s", ttl, n))
			case 1:
				y = rr(fmt.Sprintf("o. %d IN MX 10 %s", ttl, n))
			case 2:
				y = rr(fmt.Sprintf("o. %d IN NS %s", ttl, n))
			case 3:
				y = rr(fmt.Sprintf("o. %d IN PTR %s", ttl, n))
			case 4:
				y = rr(fmt.Sprintf("o. %d IN SRV 1 2 3 %s", ttl, n))
			case 5:
				y = rr(fmt.Sprintf("o. %d IN TXT \"%s\"", ttl, n))
				if r.Intn(2) == 0 {
					y = rr(fmt.Sprintf("o. %d IN TXT \"v=1\" \"%s\"", ttl, n))
					txts = []string{"v=1 " + n}
				}
			case 6:
				y = rr(fmt.Sprintf("o. %d IN SOA %s host. 1 2 3 4 5", ttl, n))
			case 7, 8:
				typ := []string{"HTTPS", "SVCB"}[kind-7]
				if r.Intn(2) == 0 {
					y = rr(fmt.Sprintf("o. %d IN %s 0 %s", ttl, typ, n))
				} else {
					y = rr(fmt.Sprintf("o. %d IN %s 1 %s alpn=h2", ttl, typ, n))
					txts = append(txts, n+" alpn=h2")
				}
			case 9:
				y = rr(fmt.Sprintf("%s %d IN HINFO a b", n, ttl))
				txts = nil
			default:
				ip := net.ParseIP(ipProbes[r.Intn(len(ipProbes))])
				e["ip"] = ipBytes(ip)
				txts = nil
				if ip.To4() != nil {
					y = rr(fmt.Sprintf("%s %d IN A %s", n, ttl, ip))
				} else {
					y = rr(fmt.Sprintf("%s %d IN AAAA %s", n, ttl, ip))
				}
			}
			tj := A{}
			for _, z := range txts {
				tj = append(tj, nameJ(z))
			}
			e["txts"] = tj
			e["x"] = y.String()
			*sec = append(*sec, y)
			rj = append(rj, e)
		}
	}
	if r.Intn(3) == 0 {
		a.SetEdns0(1232, true)
	}
	return a, rj
}

func TestResponseBlocklist(t *testing.T) {
	r := newRand(53)
	for k := 0; k < envInt("VERIF_N", 500); k++ {
		for x := 0; x < 2; x++ {
			q := query("example.com.", 1)
			q.Id = uint16(r.Intn(65536))
			ci := rdns.ClientInfo{SourceIP: net.ParseIP("192.0.2.77"), Listener: "ln"}
			s := newSpy(q, ci)
			um, rj := randResponse(r, q, x == 1)
			var ue error
			o := J{"up": "msg", "rc": um.Rcode, "rrs": rj}
			switch r.Intn(20) {
			case 0:
				um, ue = nil, errUp
				o = J{"up": "err", "rc": 0, "rrs": A{}}
			case 1:
				um = nil
				o = J{"up": "nil", "rc": 0, "rrs": A{}}
			}
			var res rdns.Resolver
			up := s.resolver("up", um, ue)
			var alt rdns.Resolver
			if r.Intn(3) == 0 {
				m, e := upReply(r, q, "198.51.100.2")
				alt = s.resolver("block", m, e)
			}
			inv := r.Intn(3) == 0
			var err error
			if x == 0 {
				db, nj := randIPList(r)
				o["k"], o["nets"], o["filter"] = "respip", nj, r.Intn(2) == 0
				res, err = rdns.NewResponseBlocklistIP("b", up, rdns.ResponseBlocklistIPOptions{BlocklistDB: db, BlocklistResolver: alt, Filter: o["filter"].(bool), Inverted: inv})
			} else {
				db, bj := randLists(r, []string{"domain", "domainsub", "regexp"}, 2)
				o["k"], o["block"] = "respname", bj
				res, err = rdns.NewResponseBlocklistName("b", up, rdns.ResponseBlocklistNameOptions{BlocklistDB: db, BlocklistResolver: alt, Inverted: inv})
			}
			if err != nil {
				panic(err)
			}
			o["inv"], o["blockres"] = inv, alt != nil
			a, rerr := res.Resolve(q, ci)
			o["asked"], o["unmod"], o["ret"] = s.asked, s.unmod, s.verdict(a, rerr)
			emit(o)
		}
	}
}
