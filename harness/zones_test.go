package zzverif

import (
	"crypto/ed25519"
	"encoding/base64"
	"fmt"
	"hash/crc32"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/miekg/dns"
)

// A tree of zones that answers like authoritative servers would, with signatures and denial records.

type dkey struct {
	k    *dns.DNSKEY
	priv ed25519.PrivateKey
}

func newDKey(r *rand.Rand, owner string, flags uint16, ttl uint32) dkey {
	seed := make([]byte, 32)
	r.Read(seed)
	p := ed25519.NewKeyFromSeed(seed)
	k := dkey{&dns.DNSKEY{Hdr: dns.RR_Header{Name: owner, Rrtype: dns.TypeDNSKEY, Class: 1, Ttl: ttl}, Flags: flags, Protocol: 3, Algorithm: dns.ED25519,
		PublicKey: base64.StdEncoding.EncodeToString(p.Public().(ed25519.PublicKey))}, p}
	if k.k.KeyTag() == 0 { // the library refuses to sign with those
		return newDKey(r, owner, flags, ttl)
	}
	return k
}

// twins makes two keys with the same tag.
func twins(r *rand.Rand, owner string, flags uint16, ttl uint32) (dkey, dkey) {
	seen := map[uint16]dkey{}
	for {
		k := newDKey(r, owner, flags, ttl)
		if o, ok := seen[k.k.KeyTag()]; ok {
			return o, k
		}
		seen[k.k.KeyTag()] = k
	}
}

func signSet(set []dns.RR, signer string, k dkey, inc, exp time.Time) *dns.RRSIG {
	s := &dns.RRSIG{Algorithm: dns.ED25519, KeyTag: k.k.KeyTag(), SignerName: signer, Inception: uint32(inc.Unix()), Expiration: uint32(exp.Unix())}
	if err := s.Sign(k.priv, set); err != nil {
		panic(err)
	}
	return s
}

type dzone struct {
	i      int
	name   string
	up     *dzone
	kids   []*dzone
	signed bool // has keys and signatures
	linked bool // the zone above publishes a delegation to its keys
	secure bool
	deny   string // nsec, nsec3, optout
	iter   uint16
	salt   string
	ksk    []dkey
	zsk    []dkey // the first signs, all are published
	shown  []dkey // published but not used
	gen    int
	keyttl uint32
	sigs   time.Duration             // validity of signatures
	both   bool                      // sign with every zone key
	own    map[string]map[uint16]int // owner -> type -> number of records
	alias  map[string]string
	dname  string
	past   map[int][]dkey
}

func (z *dzone) has(owner string) bool { _, ok := z.own[owner]; return ok }

func under(zone, name string) bool { return dns.IsSubDomain(zone, name) }

// cut returns the zone delegated at the name, if any.
func (z *dzone) cut(name string) *dzone {
	for _, k := range z.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

// owners lists all names with records in the zone, delegations included.
func (z *dzone) owners() []string {
	var r []string
	for o := range z.own {
		r = append(r, o)
	}
	for _, k := range z.kids {
		r = append(r, k.name)
	}
	sort.Strings(r)
	return r
}

func (z *dzone) exists(name string) bool {
	for _, o := range z.owners() {
		if under(name, o) {
			return true
		}
	}
	return false
}

func (z *dzone) encloser(name string) (ce, next string) {
	next = name
	for ce = upName(name); !z.exists(ce); ce = upName(ce) {
		next = ce
	}
	return
}

func upName(n string) string {
	_, p, _ := strings.Cut(n, ".")
	if p == "" {
		return "."
	}
	return p
}

func sub(l, zone string) string {
	if zone == "." {
		return l + "."
	}
	return l + "." + zone
}

// set returns a record set of the zone as it is in a generation.
func (z *dzone) set(owner string, t uint16, gen int) []dns.RR {
	h := dns.RR_Header{Name: owner, Rrtype: t, Class: 1, Ttl: 300}
	switch {
	case t == dns.TypeDNSKEY && owner == z.name && z.signed:
		var r []dns.RR
		zs := z.zsk
		if gen != z.gen {
			zs = z.past[gen]
		}
		for _, l := range [][]dkey{z.ksk, z.shown, zs} {
			for _, k := range l {
				r = append(r, dns.Copy(k.k))
			}
		}
		return uniq(r)
	case t == dns.TypeSOA && owner == z.name:
		return []dns.RR{rr(fmt.Sprintf("%s 300 IN SOA ns.%s hostmaster.%s 1 1 1 1 300", owner, strings.TrimPrefix(owner, "."), strings.TrimPrefix(owner, ".")))}
	case t == dns.TypeDS:
		if k := z.cut(owner); k != nil && k.linked {
			var r []dns.RR
			for i, x := range k.ksk {
				d := x.k.ToDS([]uint8{dns.SHA256, dns.SHA384, dns.SHA1}[i%2])
				d.Hdr.Ttl = 300
				r = append(r, d)
			}
			return r
		}
		return nil
	case t == dns.TypeCNAME:
		if tg := z.alias[owner]; tg != "" {
			return []dns.RR{&dns.CNAME{Hdr: h, Target: tg}}
		}
		return nil
	}
	var r []dns.RR
	c := crc32.ChecksumIEEE([]byte(owner + fmt.Sprint(t, gen)))
	for k := 0; k < z.own[owner][t]; k++ {
		switch t {
		case dns.TypeA:
			r = append(r, &dns.A{Hdr: h, A: []byte{10, byte(c), byte(c >> 8), byte(k)}})
		case dns.TypeTXT:
			r = append(r, &dns.TXT{Hdr: h, Txt: []string{fmt.Sprintf("%x-%d", c, k)}})
		case dns.TypeNS:
			r = append(r, &dns.NS{Hdr: h, Ns: sub(fmt.Sprintf("ns%d", k), z.name)})
		case dns.TypeMX:
			r = append(r, &dns.MX{Hdr: h, Preference: uint16(k), Mx: sub("Mail", z.name)})
		}
	}
	return r
}

func (z *dzone) types(owner string) []uint16 {
	var r []uint16
	if k := z.cut(owner); k != nil {
		r = []uint16{dns.TypeNS}
		if k.linked {
			r = append(r, dns.TypeDS, dns.TypeRRSIG)
		}
	} else {
		for _, t := range []uint16{dns.TypeA, dns.TypeTXT, dns.TypeNS, dns.TypeMX, dns.TypeSOA, dns.TypeCNAME, dns.TypeDNSKEY} {
			if len(z.set(owner, t, z.gen)) > 0 {
				r = append(r, t)
			}
		}
		if len(r) > 0 {
			r = append(r, dns.TypeRRSIG)
		}
	}
	return r
}

func bitmap(ts []uint16, more ...uint16) []uint16 {
	r := append(append([]uint16{}, ts...), more...)
	slices.Sort(r)
	return slices.Compact(r)
}

// withSigs returns the records with their signatures.
func (z *dzone) withSigs(set []dns.RR) []dns.RR {
	if !z.signed || len(set) == 0 {
		return set
	}
	now := time.Now()
	ks := z.zsk[:1]
	if z.both {
		ks = z.zsk
	}
	if set[0].Header().Rrtype == dns.TypeDNSKEY {
		ks = z.ksk
	}
	out := append([]dns.RR{}, set...)
	for _, k := range ks {
		out = append(out, signSet(set, z.name, k, now.Add(-time.Hour), now.Add(z.sigs)))
	}
	return out
}

// expand renames records made for a wildcard.
func expand(rrs []dns.RR, owner string) []dns.RR {
	var out []dns.RR
	for _, x := range rrs {
		c := dns.Copy(x)
		c.Header().Name = owner
		out = append(out, c)
	}
	return out
}

func canonLess(a, b string) bool {
	al, bl := dns.SplitDomainName(a), dns.SplitDomainName(b)
	for i := 1; i <= len(al) && i <= len(bl); i++ {
		x, y := strings.ToLower(al[len(al)-i]), strings.ToLower(bl[len(bl)-i])
		if x != y {
			return x < y
		}
	}
	return len(al) < len(bl)
}

func (z *dzone) nsec(pick func(owner, next string) bool) []dns.RR {
	os := z.owners()
	sort.Slice(os, func(i, j int) bool { return canonLess(os[i], os[j]) })
	for i, o := range os {
		if next := os[(i+1)%len(os)]; pick(o, next) {
			return z.withSigs([]dns.RR{&dns.NSEC{Hdr: dns.RR_Header{Name: o, Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: next, TypeBitMap: bitmap(z.types(o), dns.TypeNSEC, dns.TypeRRSIG)}})
		}
	}
	return nil
}

func (z *dzone) nsecCover(name string) []dns.RR {
	return z.nsec(func(o, n string) bool {
		if !canonLess(o, name) {
			return false
		}
		return canonLess(name, n) || !canonLess(o, n)
	})
}

func (z *dzone) nsecMatch(name string) []dns.RR {
	return z.nsec(func(o, n string) bool { return o == name })
}

// n3names lists the names of the hashed chain, those without records of their own included.
func (z *dzone) n3names() map[string]string {
	r := map[string]string{}
	for _, o := range z.owners() {
		if k := z.cut(o); k != nil && !k.linked && z.deny == "optout" {
			continue
		}
		for n := o; ; n = upName(n) {
			r[dns.HashName(n, dns.SHA1, z.iter, z.salt)] = n
			if n == z.name {
				break
			}
		}
	}
	return r
}

func (z *dzone) n3(pick func(h, next string) bool) []dns.RR {
	names := z.n3names()
	var hs []string
	for h := range names {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for i, h := range hs {
		next := hs[(i+1)%len(hs)]
		if !pick(h, next) {
			continue
		}
		n := &dns.NSEC3{Hdr: dns.RR_Header{Name: sub(strings.ToLower(h), z.name), Rrtype: dns.TypeNSEC3, Class: 1, Ttl: 300}, Hash: dns.SHA1, Iterations: z.iter,
			SaltLength: uint8(len(z.salt) / 2), Salt: z.salt, HashLength: 20, NextDomain: next, TypeBitMap: bitmap(z.types(names[h]))}
		if z.deny == "optout" {
			n.Flags = 1
		}
		return z.withSigs([]dns.RR{n})
	}
	return nil
}

func (z *dzone) n3Match(name string) []dns.RR {
	w := dns.HashName(name, dns.SHA1, z.iter, z.salt)
	return z.n3(func(h, next string) bool { return h == w })
}

func (z *dzone) n3Cover(name string) []dns.RR {
	w := dns.HashName(name, dns.SHA1, z.iter, z.salt)
	return z.n3(func(h, next string) bool {
		if h < next {
			return h < w && w < next
		}
		return h < w || w < next
	})
}

// proof returns the denial records that go with an answer.
func (z *dzone) proof(kind, name string) []dns.RR {
	if !z.signed {
		return nil
	}
	var ce, next string
	if !z.exists(name) {
		ce, next = z.encloser(name)
	}
	var parts [][]dns.RR
	if z.deny == "nsec" {
		switch kind {
		case "nodata":
			if parts = [][]dns.RR{z.nsecMatch(name)}; parts[0] == nil { // only names below it
				parts = [][]dns.RR{z.nsecCover(name)}
			}
		case "nx":
			parts = [][]dns.RR{z.nsecCover(name), z.nsecCover(sub("*", ce))}
		case "wild":
			parts = [][]dns.RR{z.nsecCover(name)}
		case "wildnodata":
			parts = [][]dns.RR{z.nsecCover(name), z.nsecMatch(sub("*", ce))}
		}
	} else {
		switch kind {
		case "nodata":
			if parts = [][]dns.RR{z.n3Match(name)}; parts[0] == nil { // delegation left out
				ce, next = name, ""
				for z.n3Match(ce) == nil {
					ce, next = upName(ce), ce
				}
				parts = [][]dns.RR{z.n3Match(ce), z.n3Cover(next)}
			}
		case "nx":
			parts = [][]dns.RR{z.n3Match(ce), z.n3Cover(next), z.n3Cover(sub("*", ce))}
		case "wild":
			parts = [][]dns.RR{z.n3Cover(next)}
		case "wildnodata":
			parts = [][]dns.RR{z.n3Match(ce), z.n3Cover(next), z.n3Match(sub("*", ce))}
		}
	}
	var out []dns.RR
	seen := map[string]bool{}
	for _, p := range parts {
		if len(p) > 0 && !seen[p[0].Header().Name] {
			seen[p[0].Header().Name] = true
			out = append(out, p...)
		}
	}
	return out
}

type dtree struct {
	zones []*dzone
	names []string // all names with data
}

func (t *dtree) zoneOf(name string, qt uint16) *dzone {
	if qt == dns.TypeDS && name != "." {
		name = upName(name)
	}
	var best *dzone
	for _, z := range t.zones {
		if under(z.name, name) && (best == nil || len(z.name) > len(best.name) || best.name == ".") {
			best = z
		}
	}
	return best
}

// answer is what a resolver without an attacker on the path returns.
func (t *dtree) answer(q *dns.Msg) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	a.RecursionAvailable = true
	name, qt := strings.ToLower(q.Question[0].Name), q.Question[0].Qtype
	for hop := 0; hop < 9; hop++ {
		z := t.zoneOf(name, qt)
		src, wild := name, false
		if !z.exists(name) {
			ce, _ := z.encloser(name)
			if src = sub("*", ce); !z.exists(src) {
				a.Rcode = dns.RcodeNameError
				a.Ns = append(a.Ns, z.withSigs(z.set(z.name, dns.TypeSOA, z.gen))...)
				a.Ns = append(a.Ns, z.proof("nx", name)...)
				break
			}
			wild = true
		}
		set := z.set(src, qt, z.gen)
		if z.cut(src) != nil && qt != dns.TypeDS {
			panic("cut " + src)
		}
		if set == nil && qt != dns.TypeCNAME {
			if c := z.set(src, dns.TypeCNAME, z.gen); c != nil {
				set = c
			}
		}
		if set == nil {
			a.Ns = append(a.Ns, z.withSigs(z.set(z.name, dns.TypeSOA, z.gen))...)
			a.Ns = append(a.Ns, z.proof(map[bool]string{false: "nodata", true: "wildnodata"}[wild], name)...)
			break
		}
		full := z.withSigs(set)
		if wild {
			full = expand(full, name)
			a.Ns = append(a.Ns, z.proof("wild", name)...)
		}
		a.Answer = append(a.Answer, full...)
		c, ok := set[0].(*dns.CNAME)
		if !ok || qt == dns.TypeCNAME {
			break
		}
		name = strings.ToLower(c.Target)
	}
	if o := q.IsEdns0(); o != nil {
		a.SetEdns0(1232, o.Do())
	}
	return a
}

func (z *dzone) add(owner string, t uint16, n int) {
	if z.own[owner] == nil {
		z.own[owner] = map[uint16]int{}
	}
	z.own[owner][t] = n
}

// newTree makes a random tree, some delegations are more than one label below the zone above.
func newTree(r *rand.Rand) *dtree {
	t := &dtree{}
	mk := func(name string, up *dzone, signed, linked bool) *dzone {
		z := &dzone{i: len(t.zones) + 1, name: name, up: up, signed: signed, linked: linked, gen: 1, own: map[string]map[uint16]int{}, alias: map[string]string{}, past: map[int][]dkey{},
			deny: []string{"nsec", "nsec", "nsec3", "optout"}[r.Intn(4)], iter: uint16(r.Intn(3)), salt: []string{"", "ab12"}[r.Intn(2)], sigs: 24 * time.Hour, keyttl: []uint32{60, 600, 3600}[r.Intn(3)]}
		z.secure = signed && linked && (up == nil || up.secure)
		if up != nil {
			up.kids = append(up.kids, z)
		}
		z.add(name, dns.TypeSOA, 1)
		z.add(name, dns.TypeNS, 1+r.Intn(2))
		if r.Intn(2) == 0 {
			z.add(name, dns.TypeA, 1)
		}
		z.newKeys(r)
		t.zones = append(t.zones, z)
		return z
	}
	root := mk(".", nil, true, true)
	com := mk("com.", root, true, true)
	tim := mk("tim.", root, true, true)
	mk("victim.", root, true, true)
	ex := mk("example.com.", com, true, true)
	mk("evil.com.", com, true, true)
	mk("plain.com.", com, false, false)
	mk("island.com.", com, true, false)
	_ = tim
	if r.Intn(2) == 0 {
		mk("sub.example.com.", ex, true, true)
	}
	if r.Intn(2) == 0 {
		mk("dark.example.com.", ex, r.Intn(2) == 0, false)
	}
	if r.Intn(2) == 0 {
		mk([]string{"x.deep.example.com.", "x.a.com."}[r.Intn(2)], map[bool]*dzone{true: ex, false: com}[false], true, true)
		z := t.zones[len(t.zones)-1]
		if under("example.com.", z.name) {
			com.kids = com.kids[:len(com.kids)-1]
			z.up = ex
			ex.kids = append(ex.kids, z)
		}
		if r.Intn(3) == 0 {
			z.linked, z.secure = false, false
			z.signed = r.Intn(2) == 0
		}
	}
	for _, z := range t.zones {
		if z.name == "." {
			continue
		}
		for _, l := range []string{"www", "mail", "a.ent", "b.c.ent", "*", "*.w", "h.w"} {
			if r.Intn(3) == 0 {
				continue
			}
			o := sub(l, z.name)
			if t.zoneOf(o, 1) != z {
				continue
			}
			for _, ty := range []uint16{dns.TypeA, dns.TypeTXT, dns.TypeMX} {
				if r.Intn(2) == 0 {
					z.add(o, ty, 1+r.Intn(3))
				}
			}
			if !z.has(o) {
				z.add(o, dns.TypeA, 2)
			}
			t.names = append(t.names, o)
		}
	}
	for _, z := range t.zones {
		for _, l := range []string{"alias", "alias2", "*.al"} {
			if z.name == "." || r.Intn(2) == 0 {
				continue
			}
			o := sub(l, z.name)
			tg := t.randName(r)
			z.add(o, dns.TypeCNAME, 1)
			z.alias[o] = tg
			t.names = append(t.names, o)
		}
	}
	for _, z := range t.zones { // no endless chains
		for _, o := range z.owners() {
			hops := 0
			for _, x := range t.answer(query(o, 1)).Answer {
				if x.Header().Rrtype == dns.TypeCNAME {
					hops++
				}
			}
			if z.alias[o] != "" && hops > 6 {
				z.alias[o] = "nope.com."
			}
		}
	}
	return t
}

func (z *dzone) newKeys(r *rand.Rand) {
	z.ksk, z.zsk, z.shown = nil, nil, nil
	style := r.Intn(8)
	z.ksk = []dkey{newDKey(r, z.name, 257, z.keyttl)}
	switch style {
	case 0: // one key for everything
		z.zsk = z.ksk
	case 1: // keys without the entry point flag
		z.ksk[0] = newDKey(r, z.name, 256, z.keyttl)
		z.zsk = []dkey{newDKey(r, z.name, 256, z.keyttl)}
	case 2: // two of each, both sign
		z.ksk = append(z.ksk, newDKey(r, z.name, 257, z.keyttl))
		z.zsk = []dkey{newDKey(r, z.name, 256, z.keyttl), newDKey(r, z.name, 256, z.keyttl)}
		z.both = true
	case 3: // two with the same tag
		a, b := twins(r, z.name, 256, z.keyttl)
		z.zsk, z.shown = []dkey{a}, []dkey{b}
	case 4: // a revoked key is still published
		z.shown = []dkey{newDKey(r, z.name, 257|128, z.keyttl)}
		z.zsk = []dkey{newDKey(r, z.name, 256, z.keyttl)}
	default:
		z.zsk = []dkey{newDKey(r, z.name, 256, z.keyttl)}
		if r.Intn(3) == 0 { // published ahead of use
			z.shown = []dkey{newDKey(r, z.name, 256, z.keyttl)}
		}
	}
}

func uniq(set []dns.RR) []dns.RR {
	var out []dns.RR
	seen := map[string]bool{}
	for _, x := range set {
		if !seen[x.String()] {
			seen[x.String()] = true
			out = append(out, x)
		}
	}
	return out
}

func (t *dtree) randName(r *rand.Rand) string {
	z := t.zones[1+r.Intn(len(t.zones)-1)]
	l := []string{"www", "www", "mail", "a.ent", "ent", "nope", "x.nope", "h.w", "y.w", "w", "z.y.w", "q.al", "alias", "sub", "deep", "c.ent", "dark", "www.sub", "zzz", "0", "*", "", "", "x.www"}[r.Intn(24)]
	if l == "" {
		return z.name
	}
	return sub(l, z.name)
}

func rootFirst(n string) A {
	l := dns.SplitDomainName(strings.ToLower(n))
	r := A{}
	for i := len(l) - 1; i >= 0; i-- {
		r = append(r, l[i])
	}
	return r
}

func typeName(t uint16) string { return dns.TypeToString[t] }

func toks(set []dns.RR) A {
	var s []string
	for _, x := range uniq(set) {
		c := dns.Copy(x)
		c.Header().Name, c.Header().Ttl = ".", 0
		s = append(s, strings.ToLower(fmt.Sprintf("%08x", crc32.ChecksumIEEE([]byte(strings.ToLower(c.String()))))))
	}
	sort.Strings(s)
	r := A{}
	for _, x := range s {
		r = append(r, x)
	}
	return r
}

// world describes the tree for the specification, with data of the given number of generations.
func (t *dtree) world(rolling *dzone, gens int) (zones, sets A) {
	zones, sets = A{}, A{}
	for _, z := range t.zones {
		zones = append(zones, J{"name": rootFirst(z.name), "secure": z.secure, "optout": z.deny == "optout"})
		for _, o := range z.owners() {
			if k := z.cut(o); k != nil {
				sets = append(sets, J{"z": z.i, "owner": rootFirst(o), "type": "cut", "gen": 0, "toks": A{}, "target": A{}})
				if ds := z.set(o, dns.TypeDS, 1); ds != nil {
					sets = append(sets, J{"z": z.i, "owner": rootFirst(o), "type": "DS", "gen": 0, "toks": toks(ds), "target": A{}})
				}
				continue
			}
			for _, ty := range []uint16{dns.TypeA, dns.TypeTXT, dns.TypeNS, dns.TypeMX, dns.TypeSOA, dns.TypeCNAME, dns.TypeDNSKEY} {
				if z != rolling {
					if s := z.set(o, ty, z.gen); len(s) > 0 {
						e := J{"z": z.i, "owner": rootFirst(o), "type": typeName(ty), "gen": 0, "toks": toks(s), "target": A{}}
						if ty == dns.TypeCNAME {
							e["target"] = rootFirst(z.alias[o])
						}
						sets = append(sets, e)
					}
					continue
				}
				for g := 1; g <= gens; g++ {
					if s := z.set(o, ty, g); len(s) > 0 {
						e := J{"z": z.i, "owner": rootFirst(o), "type": typeName(ty), "gen": g, "toks": toks(s), "target": A{}}
						if ty == dns.TypeCNAME {
							e["target"] = rootFirst(z.alias[o])
						}
						sets = append(sets, e)
					}
				}
			}
		}
	}
	return
}
