package zzverif

import (
	"fmt"
	"hash/crc32"
	"math/rand"
	"os"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// mallory sits between the validator and the zones.
type mallory struct {
	r       *rand.Rand
	t       *dtree
	evil    dkey // a key no zone knows
	eksk    dkey
	look    map[string]func(q, a *dns.Msg) (*dns.Msg, error) // "type name" of lookups that are altered
	touched bool
	target  *dzone
}

func splitSets(rrs []dns.RR) (sets [][]dns.RR, sigs map[string][]*dns.RRSIG) {
	ix := map[string]int{}
	sigs = map[string][]*dns.RRSIG{}
	for _, x := range rrs {
		if s, ok := x.(*dns.RRSIG); ok {
			k := strings.ToLower(s.Hdr.Name) + typeName(s.TypeCovered)
			sigs[k] = append(sigs[k], s)
			continue
		}
		k := strings.ToLower(x.Header().Name) + typeName(x.Header().Rrtype)
		if _, ok := ix[k]; !ok {
			ix[k] = len(sets)
			sets = append(sets, nil)
		}
		sets[ix[k]] = append(sets[ix[k]], x)
	}
	return
}

// forged makes a record set that no zone publishes.
func forged(owner string, t uint16) []dns.RR {
	h := dns.RR_Header{Name: owner, Rrtype: t, Class: 1, Ttl: 300}
	switch t {
	case dns.TypeTXT:
		return []dns.RR{&dns.TXT{Hdr: h, Txt: []string{"forged"}}}
	case dns.TypeMX:
		return []dns.RR{&dns.MX{Hdr: h, Preference: 66, Mx: "evil.com."}}
	case dns.TypeNS:
		return []dns.RR{&dns.NS{Hdr: h, Ns: "ns.evil.com."}}
	case dns.TypeCNAME:
		return []dns.RR{&dns.CNAME{Hdr: h, Target: "www.evil.com."}}
	case dns.TypeSOA:
		return []dns.RR{rr(owner + " 300 IN SOA evil.com. evil.com. 6 6 6 6 6")}
	}
	h.Rrtype = dns.TypeA
	return []dns.RR{&dns.A{Hdr: h, A: []byte{6, 6, 6, 6}}}
}

func (m *mallory) zone(name string) *dzone {
	for _, z := range m.t.zones {
		if z.name == name {
			return z
		}
	}
	return nil
}

// sign with the wrong key in one of several ways.
func (m *mallory) wrongSig(set []dns.RR) []dns.RR {
	now := time.Now()
	owner := set[0].Header().Name
	z := m.t.zoneOf(owner, set[0].Header().Rrtype)
	inc, exp := now.Add(-time.Hour), now.Add(time.Hour)
	ev := m.zone("evil.com.")
	if z == ev {
		ev = m.zone("victim.")
	}
	switch m.r.Intn(9) {
	case 0:
		return set
	case 1:
		return append(set, signSet(set, z.name, m.evil, inc, exp))
	case 2: // a real zone, but not this one
		return append(set, signSet(set, ev.name, ev.zsk[0], inc, exp))
	case 3: // key of a real zone, name of this one
		return append(set, signSet(set, z.name, ev.zsk[0], inc, exp))
	case 4: // name that is a suffix of this one as text
		if under("victim.", owner) {
			t := m.zone("tim.")
			s := signSet(set, t.name, t.zsk[0], inc, exp)
			return append(set, s)
		}
		return append(set, signSet(set, owner, m.evil, inc, exp))
	case 5: // right key, wrong time
		if z.signed && len(z.zsk) > 0 {
			d := time.Duration(1+m.r.Intn(100)) * time.Minute
			if m.r.Intn(2) == 0 {
				return append(set, signSet(set, z.name, z.zsk[0], now.Add(-48*time.Hour), now.Add(-d)))
			}
			return append(set, signSet(set, z.name, z.zsk[0], now.Add(d), now.Add(48*time.Hour)))
		}
	case 6: // signature of the real set, and tag and algorithm of a real key
		if real := z.set(owner, set[0].Header().Rrtype, z.gen); len(real) > 0 && z.signed {
			return append(set, z.withSigs(real)[len(real):]...)
		}
	case 7:
		s := signSet(set, z.name, m.evil, inc, exp)
		if z.signed {
			s.KeyTag = z.zsk[0].k.KeyTag()
		}
		return append(set, s)
	case 8: // the zone above signs with a key that is not its own
		if z.up != nil {
			return append(set, signSet(set, z.up.name, m.evil, inc, exp))
		}
	}
	return set
}

func (m *mallory) ask(name string, t uint16) *dns.Msg {
	q := query(name, t)
	q.SetEdns0(4096, true)
	return m.t.answer(q)
}

func pickRR(r *rand.Rand, rrs []dns.RR, f func(x dns.RR) bool) int {
	var ok []int
	for i, x := range rrs {
		if f(x) {
			ok = append(ok, i)
		}
	}
	if len(ok) == 0 {
		return -1
	}
	return ok[r.Intn(len(ok))]
}

func notSig(x dns.RR) bool { return x.Header().Rrtype != dns.TypeRRSIG }

func without(rrs []dns.RR, f func(x dns.RR) bool) []dns.RR {
	var out []dns.RR
	for _, x := range rrs {
		if !f(x) {
			out = append(out, x)
		}
	}
	return out
}

// alter returns the altered answer and what was done; "" if nothing that matters.
func (m *mallory) alter(q, a *dns.Msg, kind string) *dns.Msg {
	r := m.r
	a = a.Copy()
	name, qt := strings.ToLower(q.Question[0].Name), q.Question[0].Qtype
	other := func() *dns.Msg { // a genuine answer to something nearby
		n := m.t.randName(r)
		t := []uint16{1, 1, 16, 43, 43, 48, 5, 15}[r.Intn(8)]
		switch r.Intn(6) {
		case 0: // the delegation of the zone
			n, t = m.t.zoneOf(name, 1).name, dns.TypeDS
		case 1:
			n = sub([]string{"nope", "0", "zzz", "x"}[r.Intn(4)], upName(name))
		case 2:
			n = sub([]string{"nope", "0", "zzz"}[r.Intn(3)], name)
		case 3: // same name, other type
			n = name
		case 4: // absent from the zone above
			if z := m.t.zoneOf(name, 1); z.up != nil {
				n = sub([]string{"nope", "0", "zzz"}[r.Intn(3)], z.up.name)
			}
		}
		return m.ask(n, t)
	}
	switch kind {
	case "rdata":
		if i := pickRR(r, a.Answer, notSig); i >= 0 {
			h := a.Answer[i].Header()
			a.Answer[i] = forged(h.Name, h.Rrtype)[0]
		}
	case "add":
		if i := pickRR(r, a.Answer, notSig); i >= 0 {
			h := a.Answer[i].Header()
			a.Answer = append(a.Answer, forged(h.Name, h.Rrtype)...)
		} else {
			a.Rcode = 0
			a.Answer = forged(name, qt)
		}
	case "drop":
		if i := pickRR(r, a.Answer, notSig); i >= 0 {
			a.Answer = append(a.Answer[:i:i], a.Answer[i+1:]...)
		}
	case "nosig":
		a.Answer = without(a.Answer, func(x dns.RR) bool { return !notSig(x) && r.Intn(4) > 0 })
		if r.Intn(2) == 0 {
			a.Ns = without(a.Ns, func(x dns.RR) bool { return !notSig(x) && r.Intn(4) > 0 })
		}
		if i := pickRR(r, a.Answer, notSig); i >= 0 && r.Intn(2) == 0 {
			h := a.Answer[i].Header()
			a.Answer[i] = forged(h.Name, h.Rrtype)[0]
		}
	case "forge":
		a.Rcode = 0
		a.Ns = nil
		a.Answer = m.wrongSig(forged(name, qt))
		if r.Intn(4) == 0 { // with real signatures of several kinds around
			a.Answer = append(a.Answer, m.ask(name, qt).Answer...)
			a.Answer = without(a.Answer, func(x dns.RR) bool {
				return notSig(x) && x.Header().Rrtype == qt && !strings.Contains(x.String(), "6.6.6.6") && !strings.Contains(x.String(), "forged") && r.Intn(3) > 0
			})
		}
	case "deny":
		o := other()
		was := a.Answer
		a.Ns = o.Ns
		if r.Intn(2) == 0 {
			a.Ns = append(a.Ns, other().Ns...)
		}
		a.Rcode = []int{0, 3, o.Rcode, 3 - a.Rcode}[r.Intn(4)]
		a.Answer = nil
		switch r.Intn(8) {
		case 0:
			a.Answer = without(was, notSig)
		case 1:
			a.Answer = o.Answer
		case 2:
			if len(was) > 0 { // keep the first set only
				h := was[0].Header()
				a.Answer = without(was, func(x dns.RR) bool { return x.Header().Name != h.Name })
			}
		case 3:
			a.Ns = nil
		case 4:
			a.Answer = was
		}
	case "denyforged":
		a.Answer = nil
		a.Rcode = []int{0, 3}[r.Intn(2)]
		z := m.t.zoneOf(name, qt)
		n := dns.RR(&dns.NSEC{Hdr: dns.RR_Header{Name: upName(name), Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: sub("\\255", upName(name)), TypeBitMap: []uint16{dns.TypeNS, dns.TypeRRSIG, dns.TypeNSEC}})
		if r.Intn(2) == 0 {
			n.(*dns.NSEC).Hdr.Name = name
		}
		if !under(z.name, n.Header().Name) {
			n.(*dns.NSEC).Hdr.Name = name
		}
		a.Ns = m.wrongSig([]dns.RR{n})
	case "swap":
		o := other()
		o.Id = a.Id
		if r.Intn(2) == 0 {
			o.Question = a.Question
		}
		if r.Intn(6) == 0 {
			o.Question = nil
		}
		a = o
	case "wild": // what a wildcard would give for a name that exists or lies below one that does
		z := m.t.zoneOf(name, qt)
		for w := upName(name); under(z.name, w); w = upName(w) {
			if set := z.set(sub("*", w), qt, z.gen); len(set) > 0 {
				a.Rcode = 0
				a.Answer = expand(z.withSigs(set), name)
				a.Ns = other().Ns
				break
			}
			if w == "." {
				break
			}
		}
	case "mix":
		var add []dns.RR
		n := m.t.randName(r)
		switch r.Intn(3) {
		case 0:
			add = m.wrongSig(forged(n, 1))
		case 1:
			add = m.ask(n, 1).Answer
		case 2: // an unsigned zone and a forgery
			p := forged(sub("www", "plain.com."), 1)
			add = append(p, m.wrongSig(forged(n, 1))...)
		}
		if r.Intn(2) == 0 {
			a.Answer = append(a.Answer, add...)
		} else {
			a.Answer = append(add, a.Answer...)
		}
	case "alias": // off to an unsigned zone
		tg := sub("www", "plain.com.")
		c := []dns.RR{&dns.CNAME{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeCNAME, Class: 1, Ttl: 300}, Target: tg}}
		a.Rcode, a.Ns = 0, nil
		a.Answer = append(m.wrongSig(c), forged(tg, qt)...)
		if r.Intn(3) == 0 {
			a.Answer = append(a.Answer, m.ask(name, qt).Answer...)
		}
	case "rcode":
		a.Rcode = 3 - a.Rcode
	case "question":
		if r.Intn(2) == 0 {
			a.Question = nil
		} else {
			a.Question = []dns.Question{{Name: m.t.randName(r), Qtype: []uint16{1, 16, 43}[r.Intn(3)], Qclass: 1}}
		}
		if r.Intn(2) == 0 {
			o := other()
			a.Answer, a.Ns, a.Rcode = o.Answer, o.Ns, o.Rcode
			a.Question = o.Question
		}
	}
	return a
}

// harmless changes the answer in ways that leave it valid.
func (m *mallory) harmless(a *dns.Msg) *dns.Msg {
	r := m.r
	a = a.Copy()
	for k := 0; k < 1+r.Intn(3); k++ {
		switch r.Intn(6) {
		case 0:
			r.Shuffle(len(a.Answer), func(i, j int) { a.Answer[i], a.Answer[j] = a.Answer[j], a.Answer[i] })
		case 1:
			r.Shuffle(len(a.Ns), func(i, j int) { a.Ns[i], a.Ns[j] = a.Ns[j], a.Ns[i] })
		case 2:
			for _, x := range append(append([]dns.RR{}, a.Answer...), a.Ns...) {
				x.Header().Ttl = uint32(r.Intn(900))
			}
		case 3:
			as := map[string]string{}
			for _, x := range append(append([]dns.RR{}, a.Answer...), a.Ns...) {
				k := strings.ToLower(x.Header().Name) + typeName(x.Header().Rrtype)
				if as[k] == "" {
					as[k] = randCase(r, x.Header().Name)
				}
				x.Header().Name = as[k]
			}
		case 4: // unsigned records that are not part of the answer
			a.Extra = append(a.Extra, rr("ns1.example.com. 60 IN A 9.9.9.9"))
			a.Ns = append(a.Ns, rr("example.com. 60 IN NS ns1.example.com."))
			if r.Intn(2) == 0 {
				a.Extra = append(a.Extra, rr("example.com. 60 IN RRSIG A 13 2 300 20300101000000 20200101000000 1 example.com. YWJj"))
			}
		case 5: // one more signature nobody knows the key of
			for _, x := range a.Answer {
				if s, ok := x.(*dns.RRSIG); ok {
					c := dns.Copy(s).(*dns.RRSIG)
					c.KeyTag ^= 1
					a.Answer = append([]dns.RR{c}, a.Answer...)
					break
				}
			}
		}
	}
	return a
}

// lookups picks a way to tamper with the fetching of keys and delegations.
func (m *mallory) lookups() {
	r := m.r
	now := time.Now()
	inc, exp := now.Add(-time.Hour), now.Add(time.Hour)
	z := m.t.zones[r.Intn(len(m.t.zones))]
	if r.Intn(3) == 0 {
		z = m.zone("example.com.")
	}
	m.target = z
	fail := func(q, a *dns.Msg) (*dns.Msg, error) {
		switch r.Intn(6) {
		case 0:
			return nil, errUp
		case 1:
			return nil, nil
		case 2:
			b := new(dns.Msg)
			return b.SetRcode(q, []int{2, 3, 5}[r.Intn(3)]), nil
		case 3:
			b := new(dns.Msg)
			return b.SetReply(q), nil
		case 4:
			a.Answer = without(a.Answer, func(x dns.RR) bool { return !notSig(x) })
			a.Ns = without(a.Ns, func(x dns.RR) bool { return !notSig(x) })
			return a, nil
		}
		o := m.ask([]string{"evil.com.", "plain.com.", "com.", "nope.com."}[r.Intn(4)], []uint16{48, 43}[r.Intn(2)])
		if o.Question[0] == q.Question[0] {
			return nil, errUp
		}
		o.Id, o.Question = a.Id, a.Question
		return o, nil
	}
	m.look = map[string]func(q, a *dns.Msg) (*dns.Msg, error){}
	dk, ds := "DNSKEY "+z.name, "DS "+z.name
	forgeKeys := func(q, a *dns.Msg) (*dns.Msg, error) {
		e, k := *m.evil.k, *m.eksk.k
		e.Hdr.Name, k.Hdr.Name = z.name, z.name
		mine := []dns.RR{&e, &k}
		switch r.Intn(4) {
		case 0: // slipped in between the real ones, nothing signed again
			a.Answer = append(a.Answer, mine...)
		case 1: // signed by itself together with the real ones
			a.Answer = append(without(a.Answer, func(x dns.RR) bool { return !notSig(x) }), mine...)
			a.Answer = append(a.Answer, signSet(a.Answer, z.name, dkey{&k, m.eksk.priv}, inc, exp))
		default:
			a.Rcode = 0
			a.Answer = append(mine, signSet(mine, z.name, dkey{&k, m.eksk.priv}, inc, exp))
		}
		return a, nil
	}
	forgeDS := func(q, a *dns.Msg) (*dns.Msg, error) {
		k := *m.eksk.k
		k.Hdr.Name = z.name
		d := k.ToDS(dns.SHA256)
		d.Hdr.Ttl = 300
		a.Rcode = 0
		real := without(a.Answer, func(x dns.RR) bool { return !notSig(x) })
		switch r.Intn(3) {
		case 0:
			a.Answer = m.wrongSig([]dns.RR{d})
		case 1:
			a.Answer = append(a.Answer, d)
		case 2:
			a.Answer = m.wrongSig(append(real, d))
		}
		return a, nil
	}
	denyDS := func(q, a *dns.Msg) (*dns.Msg, error) {
		o := m.ask([]string{"plain.com.", "nope.com.", "nope.example.com.", "com.", z.name, "dark.example.com.", sub("www", z.name), "island.com."}[r.Intn(8)], []uint16{43, 43, 1}[r.Intn(3)])
		a.Answer, a.Ns, a.Rcode = nil, o.Ns, []int{0, 0, 3}[r.Intn(3)]
		switch r.Intn(4) {
		case 0:
			n := &dns.NSEC{Hdr: dns.RR_Header{Name: z.name, Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: sub("zzz", z.name), TypeBitMap: []uint16{dns.TypeNS, dns.TypeRRSIG, dns.TypeNSEC}}
			a.Ns = m.wrongSig([]dns.RR{n})
		case 1:
			a.Ns = nil
		case 2: // the real one, altered
			for _, x := range a.Ns {
				if n, ok := x.(*dns.NSEC); ok {
					n.Hdr.Name = z.name
				}
				if n, ok := x.(*dns.NSEC3); ok {
					n.Flags = 1
				}
			}
		}
		return a, nil
	}
	switch r.Intn(8) {
	case 0:
		m.look[dk] = fail
	case 1:
		m.look[ds] = fail
	case 2:
		m.look[dk] = forgeKeys
	case 3:
		m.look[ds] = forgeDS
	case 4, 5:
		m.look[ds] = denyDS
	default:
		m.look[dk], m.look[ds] = forgeKeys, forgeDS
	}
	m.touched = true
}

// coherent takes over one zone as far as possible: own keys, own delegation, own data.
func (m *mallory) coherentAnswer(q *dns.Msg) *dns.Msg {
	now := time.Now()
	name := strings.ToLower(q.Question[0].Name)
	a := new(dns.Msg)
	a.SetReply(q)
	set := forged(name, q.Question[0].Qtype)
	z := m.t.zoneOf(name, q.Question[0].Qtype)
	a.Answer = append(set, signSet(set, z.name, m.evil, now.Add(-time.Hour), now.Add(time.Hour)))
	a.SetEdns0(1232, true)
	return a
}

func rrH(rrs []dns.RR) A {
	r := A{}
	for _, x := range rrs {
		c := dns.Copy(x)
		if o, ok := c.(*dns.OPT); ok {
			o.Hdr.Ttl &^= 1 << 15
		}
		r = append(r, J{"t": int(x.Header().Rrtype), "h": int(crc32.ChecksumIEEE([]byte(c.String())) >> 1)})
	}
	return r
}

func dmsgJ(m *dns.Msg, err error) J {
	j := J{"k": "msg", "rc": 0, "ad": false, "an": A{}, "ns": A{}, "ex": A{}, "do": false}
	switch {
	case err != nil:
		j["k"] = "err"
	case m == nil:
		j["k"] = "nil"
	default:
		j["rc"], j["ad"] = m.Rcode, m.AuthenticatedData
		j["an"], j["ns"], j["ex"] = rrH(m.Answer), rrH(m.Ns), rrH(m.Extra)
		if o := m.IsEdns0(); o != nil {
			j["do"] = o.Do()
		}
	}
	return j
}

func text(m *dns.Msg) string {
	if os.Getenv("VERIF_TEXT") == "" {
		return ""
	}
	return fmt.Sprint(m)
}

func setsJ(m *dns.Msg) A {
	out := A{}
	if m == nil {
		return out
	}
	sets, _ := splitSets(m.Answer)
	for _, s := range sets {
		out = append(out, J{"owner": rootFirst(s[0].Header().Name), "type": typeName(s[0].Header().Rrtype), "toks": toks(s)})
	}
	return out
}

func TestDnssec(t *testing.T) {
	n := envInt("VERIF_N", 20)
	attack := envInt("VERIF_ATTACK", 60)
	for k := 0; k < n; k++ {
		r := newRand(int64(77000 + k))
		synctest.Test(t, func(t *testing.T) { dnssecTrace(r, attack) })
	}
}

func dnssecTrace(r *rand.Rand, attack int) {
	tree := newTree(r)
	start := time.Now()
	ms := func() int { return int(time.Since(start) / time.Millisecond) }
	// one zone changes its keys and data from time to time
	var rolling *dzone
	const gens = 4
	if r.Intn(2) == 0 {
		rolling = tree.zones[4+r.Intn(len(tree.zones)-4)]
		if !rolling.secure || len(rolling.zsk) == 1 && len(rolling.ksk) == 1 && rolling.zsk[0].k == rolling.ksk[0].k {
			rolling = nil
		} else {
			rolling.shown, rolling.both = nil, false
			for g := 1; g <= gens; g++ {
				rolling.past[g] = []dkey{newDKey(r, rolling.name, 256, rolling.keyttl)}
			}
			rolling.zsk = rolling.past[1]
		}
	}
	zones, sets := tree.world(rolling, gens)
	logonly := r.Intn(10) == 0
	m := &mallory{r: r, t: tree, evil: newDKey(r, "evil.com.", 256, 300), eksk: newDKey(r, "evil.com.", 257, 300)}
	log := &evlog{}
	var mu sync.Mutex // mallory is used by several callers at a time
	type plan struct {
		kind string
		up   *dns.Msg
		err  error
		sent bool
		do   bool
		old  int
	}
	plans := map[string]*plan{}
	delay := r.Intn(3) == 0
	up := &fn{"up", func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		if delay {
			mu.Lock()
			d := time.Duration(r.Intn(20)) * time.Millisecond
			mu.Unlock()
			time.Sleep(d)
		}
		mu.Lock()
		defer mu.Unlock()
		name, qt := strings.ToLower(q.Question[0].Name), q.Question[0].Qtype
		a := tree.answer(q)
		p := plans[name+typeName(qt)]
		if (qt == dns.TypeDNSKEY || qt == dns.TypeDS) && (q.CheckingDisabled || ci.Listener == "" || p == nil || p.sent) { // a lookup by the validator
			if f := m.look[typeName(qt)+" "+name]; f != nil {
				return f(q, a)
			}
			if z := m.zone(name); z != nil && qt == dns.TypeDNSKEY && z.secure {
				log.add(J{"e": "key", "t": ms(), "z": z.i, "gen": z.gen, "ttl": int(z.keyttl) * 1000})
				if r.Intn(8) == 0 { // time to live is not protected as such
					for _, x := range a.Answer {
						x.Header().Ttl = 1 << 30
					}
				}
			}
			return a, nil
		}
		if p == nil {
			panic("unexpected query " + q.String())
		}
		o := q.IsEdns0()
		p.do = o != nil && o.Do()
		p.sent = true
		switch p.kind {
		case "":
		case "harmless":
			a = m.harmless(a)
		case "err":
			p.err = errUp
			return nil, errUp
		case "nil":
			return nil, nil
		case "rc":
			a = new(dns.Msg)
			a.SetRcode(q, []int{1, 2, 4, 5}[r.Intn(4)])
			a.SetEdns0(1232, true)
			if r.Intn(2) == 0 {
				a.Answer = m.wrongSig(forged(name, qt))
			}
		case "coherent":
			a = m.coherentAnswer(q)
		case "old": // as it was in an earlier generation
			z := tree.zoneOf(name, qt)
			now := z.gen
			z.gen, z.zsk = p.old, z.past[p.old]
			a = tree.answer(q)
			z.gen, z.zsk = now, z.past[now]
		default:
			a = m.alter(q, a, p.kind)
		}
		if r.Intn(12) == 0 {
			a.AuthenticatedData = true
		}
		p.up = a.Copy()
		return a, nil
	}}
	anchors := []rdns.TrustAnchor{}
	for _, k := range tree.zones[0].ksk {
		d := k.k.ToDS(dns.SHA256)
		anchors = append(anchors, rdns.TrustAnchor{Owner: ".", KeyTag: d.KeyTag, Algorithm: d.Algorithm, DigestType: d.DigestType, Digest: d.Digest})
	}
	if r.Intn(2) == 0 { // an anchor for a key that is not in use (yet or any more)
		d := newDKey(r, ".", 257, 1).k.ToDS(dns.SHA256)
		x := rdns.TrustAnchor{Owner: ".", KeyTag: d.KeyTag, Algorithm: d.Algorithm, DigestType: d.DigestType, Digest: d.Digest}
		if r.Intn(2) == 0 {
			anchors = append(anchors, x)
		} else {
			anchors = append([]rdns.TrustAnchor{x}, anchors...)
		}
	}
	v, err := rdns.NewDNSSECValidator("dnssec", up, rdns.DNSSECValidatorOptions{TrustAnchors: anchors, LogOnly: logonly})
	if err != nil {
		panic(err)
	}
	kinds := []string{"rdata", "add", "drop", "nosig", "forge", "forge", "deny", "deny", "deny", "deny", "denyforged", "swap", "wild", "wild", "mix", "alias", "rcode", "question"}
	for b := 0; b < 12; b++ {
		switch r.Intn(5) {
		case 0:
			time.Sleep(time.Duration(r.Intn(4000)) * time.Second)
		case 1:
			time.Sleep(time.Duration(r.Intn(100)) * time.Second)
		case 2:
			if rolling != nil {
				time.Sleep(time.Duration(rolling.keyttl)*time.Second + time.Duration(r.Intn(3)-1)*time.Second)
			}
		}
		if rolling != nil && rolling.gen < gens && r.Intn(3) == 0 {
			rolling.gen++
			rolling.zsk = rolling.past[rolling.gen]
			log.add(J{"e": "roll", "t": ms(), "z": rolling.i})
		}
		m.look, m.touched = nil, false
		clear(plans)
		hit := r.Intn(100) < attack
		coherent := false
		if hit && r.Intn(3) == 0 {
			m.lookups()
			coherent = true
		}
		var wg sync.WaitGroup
		for c := 1 + r.Intn(3); c > 0; c-- {
			name, qt := tree.randName(r), []uint16{1, 1, 1, 16, 15, 43, 48, 5, 6, 2}[r.Intn(10)]
			if r.Intn(3) > 0 && len(tree.names) > 0 {
				name = tree.names[r.Intn(len(tree.names))]
				if strings.HasPrefix(name, "*") && r.Intn(2) == 0 {
					name = []string{"foo", "www", "x.y"}[r.Intn(3)] + name[1:]
				}
			}
			if coherent && r.Intn(2) == 0 {
				name = sub([]string{"www", "mail", "nope", "a.ent"}[r.Intn(4)], m.target.name)
			}
			if plans[name+typeName(qt)] != nil {
				continue
			}
			p := &plan{}
			plans[name+typeName(qt)] = p
			clean := !m.touched
			switch {
			case coherent && r.Intn(2) == 0:
				p.kind, clean = "coherent", false
			case rolling != nil && rolling.gen > 1 && tree.zoneOf(name, qt) == rolling && r.Intn(2) == 0:
				p.kind, clean = "old", false
				p.old = 1 + r.Intn(rolling.gen-1)
			case hit && r.Intn(4) > 0:
				p.kind, clean = kinds[r.Intn(len(kinds))], false
			case r.Intn(3) == 0:
				p.kind = "harmless"
			case r.Intn(12) == 0:
				p.kind, clean = []string{"err", "nil", "rc"}[r.Intn(3)], false
			}
			q := query(randCase(r, name), qt)
			edns, do := r.Intn(3) > 0, false
			q.AuthenticatedData = r.Intn(2) == 0
			if edns {
				do = r.Intn(2) == 0
				q.SetEdns0(uint16([]int{512 + r.Intn(3000), 512 + r.Intn(3000), 1232, 4095, 4096, 4097, 8192, 65535, 0, 511}[r.Intn(10)]), do)
			}
			orig := q.Copy()
			wg.Add(1)
			go func() {
				defer wg.Done()
				t0 := ms()
				a, err := v.Resolve(q, rdns.ClientInfo{Listener: "c"})
				mu.Lock()
				defer mu.Unlock()
				if p.kind == "rc" && p.up == nil {
					panic("no answer made")
				}
				log.add(J{"e": "reply", "t": ms(), "t0": t0, "q": J{"name": rootFirst(name), "type": typeName(qt)}, "qt": int(qt), "kind": p.kind, "clean": clean, "look": m.touched, "do": do, "edns": edns,
					"up": dmsgJ(p.up, p.err), "got": dmsgJ(a, err), "sets": setsJ(a), "sameq": sameMsg(q, orig), "updo": p.do, "text": text(p.up)})
			}()
		}
		wg.Wait()
	}
	ev := log.take()
	emit(J{"cfg": J{"zones": zones, "sets": sets, "logonly": logonly}, "ev": ev})
}
