package zzverif

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/miekg/dns"
)

// Upstream servers of one worker, which note what they are asked.
type cfgUp struct {
	mu    sync.Mutex
	seen  []J // of the query under way
	label string
	beh   []string
	w     int
	port  int
	tport int
	dead  int
	caF   string
	badCA string
	dir   string
}

const cfgUps = 4

func (u *cfgUp) addr(k int) string { return fmt.Sprintf("127.20.%d.%d", u.w, k) }

func newCfgUp(t *testing.T, w, port, tport, dead int, ca *testCA, caF, badCA, dir string) *cfgUp {
	u := &cfgUp{w: w, port: port, tport: tport, dead: dead, caF: caF, badCA: badCA, dir: dir}
	var names []string
	for k := 1; k <= cfgUps; k++ {
		names = append(names, u.addr(k))
	}
	cert := ca.issue(append(names, "up.test")...)
	for k := 1; k <= cfgUps; k++ {
		for _, p := range []string{"udp", "tcp", "dot"} {
			s := &dns.Server{Addr: fmt.Sprintf("%s:%d", u.addr(k), port), Net: p, Handler: u.handler(k, p)}
			if p == "dot" {
				s.Addr, s.Net = fmt.Sprintf("%s:%d", u.addr(k), tport), "tcp-tls"
				s.TLSConfig = &tls.Config{Certificates: []tls.Certificate{cert}}
			}
			up := make(chan bool)
			s.NotifyStartedFunc = func() { close(up) }
			go func() {
				if err := s.ListenAndServe(); err != nil {
					panic(err)
				}
			}()
			<-up
		}
	}
	return u
}

func ecsNetJ(a string, l int) J { return J{"a": a, "l": l} }

func cfgOpts(q *dns.Msg) (J, string) {
	ecs, opt := ecsNetJ("-", 0), "-"
	if o := q.IsEdns0(); o != nil {
		for _, x := range o.Option {
			switch v := x.(type) {
			case *dns.EDNS0_SUBNET:
				ecs = ecsNetJ(v.Address.String(), int(v.SourceNetmask))
			case *dns.EDNS0_LOCAL:
				if v.Code == 65001 {
					opt = string(v.Data)
				}
			}
		}
	}
	return ecs, opt
}

func (u *cfgUp) handler(k int, proto string) dns.HandlerFunc {
	return func(w dns.ResponseWriter, q *dns.Msg) {
		name := q.Question[0].Name
		l := dns.SplitDomainName(name)
		a := new(dns.Msg)
		a.SetReply(q)
		u.mu.Lock()
		beh := ""
		if len(l) == 3 && l[0] == u.label {
			beh = u.beh[k-1]
			ecs, opt := cfgOpts(q)
			from, _, _ := net.SplitHostPort(w.RemoteAddr().String())
			u.seen = append(u.seen, J{"u": k, "n": l[1], "t": dns.TypeToString[q.Question[0].Qtype], "ecs": ecs, "opt": opt, "from": from, "p": proto})
		}
		u.mu.Unlock()
		ttl := 100 + 100*k
		switch beh {
		case "ok", "trunc":
			a.Answer = append(a.Answer, rr(fmt.Sprintf("%s %d IN CNAME t%d.test.", name, ttl, k)))
			if q.Question[0].Qtype == dns.TypeA {
				a.Answer = append(a.Answer, rr(fmt.Sprintf("t%d.test. %d IN A 10.0.0.%d", k, ttl, k)))
			} else {
				a.Answer = append(a.Answer, rr(fmt.Sprintf("t%d.test. %d IN AAAA fd00::%d", k, ttl, k)))
			}
			a.Ns = append(a.Ns, rr(fmt.Sprintf("test. %d IN NS ns.test.", ttl)))
			a.Extra = append(a.Extra, rr(fmt.Sprintf("info.test. %d IN TXT x", ttl)))
			a.Truncated = beh == "trunc"
		case "nx":
			a.Rcode = dns.RcodeNameError
		case "servfail":
			a.Rcode = dns.RcodeServerFailure
		case "refused":
			a.Rcode = dns.RcodeRefused
		}
		w.WriteMsg(a)
	}
}

// Configuration elements, as the specification sees them and as text.
type cfgEl struct {
	id, kind, typ              string
	res                        []string
	allow, block, limit, retry string
	routes                     []J
	routeText                  []string
	bad                        bool
	s                          J
	lines                      []string
	leaf                       bool
}

type cfgGen struct {
	r             *rand.Rand
	u             *cfgUp
	els           []*cfgEl
	ls            []J
	lt            []string // the text of the listeners
	dir           string
	nf            int
	ip            string
	twice, broken bool
	hasFastest    bool
	missingFile   bool
	ports         []int
}

func quoteAll(ss []string) string {
	var o []string
	for _, s := range ss {
		o = append(o, "'"+s+"'")
	}
	return "[" + strings.Join(o, ", ") + "]"
}

func (g *cfgGen) file(text string) string {
	g.nf++
	p := filepath.Join(g.dir, fmt.Sprintf("f%d", g.nf))
	if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
		panic(err)
	}
	return p
}

func (g *cfgGen) chance(n int) bool { return g.r.Intn(n) == 0 }

// rules for the classes of names in a format
func (g *cfgGen) rules(names []string, format string) []string {
	var o []string
	for _, n := range names {
		switch format {
		case "domain":
			o = append(o, "*."+n+".test")
		case "domain-subdomain":
			o = append(o, n+".test")
		default:
			o = append(o, `\.`+n+`\.test\.$`)
		}
	}
	return o
}

var cfgNames = []string{"a", "b", "c"}

func (g *cfgGen) some(from []string, n int) []string {
	p := g.r.Perm(len(from))
	var o []string
	for i := 0; i < n && i < len(p); i++ {
		o = append(o, from[p[i]])
	}
	return o
}

func (g *cfgGen) srcRules(srcs []int) []string {
	var o []string
	for _, s := range srcs {
		if s > 100 {
			o = append(o, fmt.Sprintf("10.1.0.%d/32", s-100), fmt.Sprintf("fd01::%d/128", s-100))
		} else {
			o = append(o, fmt.Sprintf("10.0.0.%d/32", s), fmt.Sprintf("fd00::%d/128", s))
		}
	}
	return o
}

func (g *cfgGen) ede() (int, string) {
	c := []int{15, 22}[g.r.Intn(2)]
	return c, fmt.Sprintf("edns0-ede = {code = %d, text = 'no'}", c)
}

var cfgTypes = []string{"round-robin", "fail-rotate", "fail-back", "fastest", "load-balance", "random",
	"blocklist", "blocklist-v2", "blocklist-v2", "blocklist-v2", "replace", "ttl-modifier", "truncate-retry", "truncate-retry", "request-dedup", "ecs-modifier", "edns0-modifier",
	"cache", "response-blocklist-ip", "response-blocklist-ip", "response-blocklist-name", "client-blocklist", "response-minimize", "response-collapse",
	"rate-limiter", "rate-limiter", "query-log", "lua", "static-responder", "drop", "router", "router"}

// those not on the way of any query
var cfgIdle = []string{"dns64", "syslog", "prefetch", "fastest-tcp", "static-template"}

var cfgMany = map[string]bool{"round-robin": true, "fail-rotate": true, "fail-back": true, "fastest": true, "load-balance": true, "random": true}

func (g *cfgGen) fresh() string {
	for {
		id := []string{"up", "grp", "net", "Main", "x-", "r_"}[g.r.Intn(6)] + strconv.Itoa(g.r.Intn(30))
		ok := true
		for _, e := range g.els {
			ok = ok && e.id != id
		}
		if ok {
			return id
		}
	}
}

func (g *cfgGen) resolver(k int) {
	e := &cfgEl{id: g.fresh(), kind: "resolver", leaf: true}
	e.typ = []string{"udp", "tcp", "dot"}[g.r.Intn(3)]
	port := g.u.port
	from := "127.0.0.1"
	dead := false
	switch {
	case e.typ == "dot":
		port = g.u.tport
		ca := g.u.caF
		if g.chance(6) {
			ca, dead = g.u.badCA, true
		}
		e.lines = append(e.lines, "ca = '"+ca+"'")
		if g.chance(3) {
			sn := "up.test"
			if g.chance(3) {
				sn, dead = "other.test", true
			}
			e.lines = append(e.lines, "server-name = '"+sn+"'")
		}
	case e.typ == "tcp" && g.chance(4):
		dead, port = true, g.u.dead
	}
	if g.chance(3) {
		from = fmt.Sprintf("127.88.%d.%d", g.u.w, 1+g.r.Intn(3))
		e.lines = append(e.lines, fmt.Sprintf("%s = '%s'", []string{"local-address", "local-address-v4"}[g.r.Intn(2)], from))
	} else if g.chance(6) {
		e.lines = append(e.lines, "local-address-v6 = '::1'")
	}
	e.lines = append(e.lines, fmt.Sprintf("address = '%s:%d'", g.u.addr(k), port))
	e.s = J{"u": k, "from": from, "dead": dead}
	g.els = append(g.els, e)
}

// idleResolver adds a resolver of any protocol, and a group using it that no
// listener reaches.
func (g *cfgGen) idleResolver() {
	e := &cfgEl{id: g.fresh(), kind: "resolver", leaf: true, s: J{"u": 1, "from": "127.0.0.1", "dead": true}}
	e.typ = []string{"dot", "dtls", "doq", "doh", "odoh"}[g.r.Intn(5)]
	add := func(f string, a ...any) { e.lines = append(e.lines, fmt.Sprintf(f, a...)) }
	host, path := []string{"127.0.0.1", "[::1]", "dns.example", "a-b.c1.example"}[g.r.Intn(4)], ""
	if host == "[::1]" || g.chance(2) {
		host += fmt.Sprintf(":%d", g.u.dead)
	}
	if e.typ == "doh" || e.typ == "odoh" {
		host, path = "https://"+host, []string{"/dns-query", "/dns-query{?dns}"}[g.r.Intn(2)]
		if g.chance(2) {
			add("doh = {method = '%s'}", []string{"GET", "POST"}[g.r.Intn(2)])
		}
		if g.chance(3) {
			add("transport = '%s'", []string{"tcp", "quic"}[g.r.Intn(2)])
		}
	}
	if e.typ == "odoh" {
		path = "/proxy"
		add("target = 'https://odoh.example/dns-query'")
	}
	add("address = '%s'", host+path)
	if g.chance(2) {
		add("ca = '%s'", g.u.caF)
	}
	if g.chance(2) {
		add("client-crt = '%s'\nclient-key = '%s'", filepath.Join(g.u.dir, "ca.pem"), filepath.Join(g.u.dir, "ca.key"))
	}
	if strings.Contains(host, "example") || g.chance(3) {
		add("bootstrap-address = '127.0.0.1'")
	}
	if g.chance(3) {
		add("%s", []string{"local-address = '127.0.0.1'", "local-address-v4 = '127.0.0.1'", "local-address-v6 = '::1'", "query-timeout = 3"}[g.r.Intn(4)])
	}
	g.els = append(g.els, e, &cfgEl{id: g.fresh(), kind: "group", typ: "round-robin", s: J{}, res: []string{e.id}})
}

func (g *cfgGen) ids() []string {
	var o []string
	for _, e := range g.els {
		o = append(o, e.id)
	}
	return o
}

func (g *cfgGen) group(typ string) {
	e := &cfgEl{id: g.fresh(), kind: "group", typ: typ, s: J{}}
	add := func(f string, a ...any) { e.lines = append(e.lines, fmt.Sprintf(f, a...)) }
	refs := g.some(g.ids(), 9)
	next := func() string { // a reference not used in this group
		if len(refs) == 0 {
			return ""
		}
		x := refs[0]
		refs = refs[1:]
		return x
	}
	maybe := func() string {
		if g.chance(2) {
			return ""
		}
		return next()
	}
	boolS := func(n string) bool {
		b := g.chance(2)
		if b {
			add("%s = true", n)
		}
		return b
	}
	switch {
	case typ == "router":
		e.kind = "router"
		for range 1 + g.r.Intn(4) {
			g.route(e, g.ids()[g.r.Intn(len(g.els))])
		}
		if !g.chance(4) {
			e.routes = append(e.routes, J{"types": A{}, "name": "", "client": 0, "listener": "", "ecs": "", "invert": false, "res": g.ids()[g.r.Intn(len(g.els))]})
			e.routeText = append(e.routeText, "")
		}
	case typ == "static-responder":
		n := 1 + g.r.Intn(5)
		e.leaf = true
		rc, src, ttl, ede, tc := 0, 100+n, 3600, 0, false
		if g.chance(3) {
			rc = []int{2, 3, 5}[g.r.Intn(3)]
			add("rcode = %d", rc)
		}
		if g.chance(4) {
			src, ttl = 0, 0
		} else {
			add("answer = ['IN A 10.1.0.%d', 'IN AAAA fd01::%d']", n, n)
		}
		if g.chance(4) {
			tc = true
			add("truncate = true")
		}
		if g.chance(4) {
			var l string
			ede, l = g.ede()
			add("%s", l)
		}
		e.s = J{"rc": rc, "src": src, "ttl": ttl, "ede": ede, "tc": tc}
	case typ == "drop":
		e.leaf = true
	case cfgMany[typ]:
		for range 1 + g.r.Intn(3) {
			if x := next(); x != "" {
				e.res = append(e.res, x)
			}
		}
		if typ == "fastest" { // leaves only
			var l []string
			for _, x := range g.els {
				if x.leaf && len(l) < 3 && g.chance(2) {
					l = append(l, x.id)
				}
			}
			if len(l) == 0 {
				l = []string{g.els[0].id}
			}
			e.res = l
			g.hasFastest = true
		}
		e.s = J{"servfail": false, "empty": false, "reset": 60}
		if typ != "round-robin" && typ != "fastest" {
			e.s["servfail"] = boolS("servfail-error")
			e.s["empty"] = boolS("empty-error")
		}
		if typ == "fail-back" || typ == "random" {
			if g.chance(2) {
				v := 3600
				if typ == "fail-back" && g.chance(2) {
					v = 0
				}
				add("reset-after = %d", v)
				e.s["reset"] = v
			}
		}
		if typ == "load-balance" && g.chance(2) {
			add("failure-penalty = 3")
		}
	case typ == "lua":
		for range 1 + g.r.Intn(3) {
			if x := next(); x != "" {
				e.res = append(e.res, x)
			}
		}
		k := 1 + g.r.Intn(len(e.res))
		script := fmt.Sprintf("function Resolve(msg, ci) return Resolvers[%d]:resolve(msg, ci) end", k)
		if g.chance(2) {
			add("lua-script = '%s'", script)
		} else {
			add("lua-script-source = '%s'", g.file(script))
		}
		if g.chance(2) {
			add("lua-concurrency = %d", 1+g.r.Intn(3))
		}
		e.s = J{"pick": k}
	default:
		e.res = []string{next()}
		g.single(e, typ, add, next, maybe, boolS)
	}
	g.els = append(g.els, e)
}

func (g *cfgGen) single(e *cfgEl, typ string, add func(string, ...any), next, maybe func() string, boolS func(string) bool) {
	lists := func(pre string, names []string) {
		f := []string{"", "regexp", "domain", "domain-subdomain"}[g.r.Intn(4)]
		rules := g.rules(names, f)
		if typ == "blocklist" {
			if f != "" {
				add("format = '%s'", f)
			}
			if g.chance(3) {
				add("source = '%s'", g.file(strings.Join(rules, "\n")+"\n"))
			} else {
				add("blocklist = %s", quoteAll(rules))
			}
			return
		}
		if g.chance(2) {
			if f != "" {
				add("%s-format = '%s'", pre, f)
			}
			add("%s = %s", pre, quoteAll(rules))
			return
		}
		var src []string
		for i, n := range names {
			f := []string{"", "regexp", "domain", "domain-subdomain"}[g.r.Intn(4)]
			x := fmt.Sprintf("{format = '%s', source = '%s'}", f, g.file(strings.Join(g.rules([]string{n}, f), "\n")+"\n"))
			if f == "" {
				x = fmt.Sprintf("{name = 'l%d', source = '%s'}", i, g.file(g.rules([]string{n}, f)[0]+"\n"))
			}
			src = append(src, x)
		}
		add("%s-source = [%s]", pre, strings.Join(src, ", "))
	}
	ipList := func(rules []string) {
		switch g.r.Intn(3) {
		case 0:
			add("blocklist-format = 'cidr'")
			fallthrough
		case 1:
			add("blocklist = %s", quoteAll(rules))
		default:
			add("blocklist-source = [{format = 'cidr', source = '%s'}]", g.file(strings.Join(rules, "\n")+"\n"))
		}
	}
	someSrcs := func() []int {
		var o []int
		for range 1 + g.r.Intn(3) {
			if g.chance(4) {
				o = append(o, 101+g.r.Intn(5))
			} else {
				o = append(o, 1+g.r.Intn(cfgUps))
			}
		}
		return o
	}
	ede := 0
	setEde := func() {
		if g.chance(2) {
			var l string
			ede, l = g.ede()
			add("%s", l)
		}
	}
	block := func() {
		e.block = maybe()
	}
	switch typ {
	case "blocklist":
		n := g.some(cfgNames, 1+g.r.Intn(2))
		lists("", n)
		e.s = J{"block": n}
	case "blocklist-v2":
		e.allow = maybe()
		block()
		setEde()
		b, a := g.some(cfgNames, 1+g.r.Intn(3)), []string{}
		lists("blocklist", b)
		if !g.chance(3) {
			a = g.some(cfgNames, 1+g.r.Intn(2))
			lists("allowlist", a)
		}
		e.s = J{"block": b, "allow": a, "ede": ede}
	case "replace":
		n := g.some(cfgNames, 2)
		add(`replace = [{from = '^(.*)\.%s\.test\.$', to = '$1.%s.test.'}]`, n[0], n[1])
		e.s = J{"from": n[0], "to": n[1]}
	case "ttl-modifier":
		lo, hi := 0, 0
		if !g.chance(3) {
			lo = []int{50, 250, 350}[g.r.Intn(3)]
			add("ttl-min = %d", lo)
		}
		if !g.chance(3) {
			hi = []int{360, 420, 4000}[g.r.Intn(3)]
			add("ttl-max = %d", hi)
		}
		e.s = J{"min": lo, "max": hi}
	case "truncate-retry":
		e.retry = next()
	case "ecs-modifier":
		op := []string{"add", "add-if-missing", "delete", "privacy", "add", ""}[g.r.Intn(6)]
		addr := ""
		if op != "" {
			add("ecs-op = '%s'", op)
		}
		if strings.HasPrefix(op, "add") && g.chance(2) {
			addr = "192.0.2.0"
			add("ecs-address = '%s'", addr)
		}
		add("ecs-prefix4 = 24")
		add("ecs-prefix6 = 61")
		e.s = J{"op": op, "addr": addr}
	case "edns0-modifier":
		op := []string{"add", "delete", ""}[g.r.Intn(3)]
		if op != "" {
			add("edns0-op = '%s'", op)
		}
		add("edns0-code = 65001")
		add("edns0-data = [104, 105]")
		e.s = J{"op": op, "data": "hi"}
	case "cache":
		switch g.r.Intn(4) {
		case 0:
			add("cache-size = 1000")
		case 1:
			add("backend = {type = 'memory', size = 1000}")
		case 2:
			add("backend = {type = 'memory', filename = '%s', save-interval = 1}", filepath.Join(g.dir, e.id+".cache"))
		}
		if g.chance(3) {
			add("cache-negative-ttl = 30")
		}
	case "response-blocklist-ip":
		block()
		setEde()
		s := someSrcs()
		ipList(g.srcRules(s))
		e.s = J{"srcs": s, "ede": ede, "filter": boolS("filter"), "invert": boolS("inverted")}
	case "response-blocklist-name":
		block()
		setEde()
		s := someSrcs()
		var rules []string
		f := []string{"", "regexp", "domain"}[g.r.Intn(3)]
		for _, x := range s {
			if f == "domain" {
				rules = append(rules, fmt.Sprintf("t%d.test", x))
			} else {
				rules = append(rules, fmt.Sprintf(`^t%d\.test\.$`, x))
			}
		}
		if g.chance(2) {
			if f != "" {
				add("blocklist-format = '%s'", f)
			}
			add("blocklist = %s", quoteAll(rules))
		} else {
			add("blocklist-source = [{format = '%s', source = '%s'}]", f, g.file(strings.Join(rules, "\n")+"\n"))
		}
		e.s = J{"srcs": s, "ede": ede}
	case "client-blocklist":
		block()
		c := 1 + g.r.Intn(3)
		ipList([]string{fmt.Sprintf("127.77.0.%d/32", c), "203.0.113.0/24"})
		e.s = J{"clients": A{c}, "useecs": boolS("use-ecs")}
	case "rate-limiter":
		e.limit = maybe()
		n := g.r.Intn(4)
		shared := g.chance(2)
		add("requests = %d", n+1)
		add("window = 2000000000")
		if shared {
			add("prefix4 = 24\nprefix6 = 32")
		} else {
			add("prefix4 = 32\nprefix6 = 24")
		}
		e.s = J{"requests": n + 1, "shared": shared}
	case "response-collapse":
		rc := 0
		if g.chance(2) {
			rc = 3
			add("null-rcode = 3")
		}
		e.s = J{"rc": rc}
	case "query-log":
		add("output-file = '%s'", filepath.Join(g.dir, e.id+".log"))
		if g.chance(2) {
			add("output-format = 'json'")
		}
	case "dns64":
		if g.chance(2) {
			add("dns64-prefix = ['64:ff9b::/96']")
		}
	case "syslog":
		add("network = 'udp'\naddress = '127.0.0.1:9'\npriority = '%s'", []string{"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug"}[g.r.Intn(8)])
	}
}

func (g *cfgGen) route(e *cfgEl, to string) {
	var l []string
	j := J{"types": A{}, "name": "", "client": 0, "listener": "", "ecs": "", "invert": false, "res": to}
	if g.chance(2) {
		t := []string{"A", "AAAA", "MX"}[g.r.Intn(3)]
		j["types"] = A{t}
		switch g.r.Intn(3) {
		case 0:
			l = append(l, "type = '"+t+"'")
		case 1:
			l = append(l, "types = ['"+t+"']")
		default:
			l = append(l, "types = ['"+t+"', 'PTR']")
			j["types"] = A{t, "PTR"}
		}
	}
	if g.chance(3) {
		n := cfgNames[g.r.Intn(3)]
		j["name"] = n
		l = append(l, `name = '\.`+n+`\.test\.$'`)
	}
	if g.chance(4) {
		c := 1 + g.r.Intn(3)
		j["client"] = c
		l = append(l, fmt.Sprintf("source = '127.77.0.%d/32'", c))
	}
	if g.chance(5) {
		x := fmt.Sprintf("l%d", g.r.Intn(3))
		j["listener"] = x
		l = append(l, "listener = '^"+x+"$'")
	}
	if g.chance(6) {
		j["ecs"] = "198.51.100.7"
		l = append(l, "ecs-source = '198.51.100.7/32'")
	}
	if g.chance(4) {
		j["invert"] = true
		l = append(l, "invert = true")
	}
	switch g.r.Intn(8) {
	case 0:
		l = append(l, "class = 'IN'")
	case 1:
		l = append(l, "weekdays = ['mon', 'tue', 'wed', 'thu', 'fri', 'sat', 'sun']")
	}
	e.routes = append(e.routes, j)
	e.routeText = append(e.routeText, strings.Join(l, ", "))
}

func (g *cfgGen) listeners() {
	for i := range 1 + g.r.Intn(3) {
		// rather one of the later elements
		k := len(g.els) - 1 - g.r.Intn(1+len(g.els)/2)
		p := []string{"tcp", "tcp", "tcp", "udp"}[g.r.Intn(4)]
		l := J{"id": fmt.Sprintf("l%d", i), "proto": p, "res": g.els[k].id, "bad": false, "clients": A{}}
		text := ""
		if g.chance(5) {
			l["clients"] = A{1, 2}
			text = "allowed-net = ['127.77.0.1/32', '127.77.0.2/32']\n"
		}
		if g.chance(4) {
			text += "ip-version = 4\n"
		}
		g.ls = append(g.ls, l)
		g.lt = append(g.lt, text)
		g.ports = append(g.ports, 5353+i)
	}
	if g.chance(5) {
		g.ls = append(g.ls, J{"id": "adm", "proto": "admin", "res": "", "bad": false, "clients": A{}})
		g.lt = append(g.lt, fmt.Sprintf("server-crt = '%s'\nserver-key = '%s'\n", filepath.Join(g.u.dir, "ca.pem"), filepath.Join(g.u.dir, "ca.key")))
		g.ports = append(g.ports, 5390)
	}
}

// slots are the places of an element where another one is named
func (e *cfgEl) slots() []*string {
	var o []*string
	for i := range e.res {
		o = append(o, &e.res[i])
	}
	for _, p := range []*string{&e.allow, &e.block, &e.limit, &e.retry} {
		if *p != "" {
			o = append(o, p)
		}
	}
	return o
}

func (g *cfgGen) withRefs() *cfgEl {
	p := g.r.Perm(len(g.els))
	for _, i := range p {
		if e := g.els[i]; len(e.slots()) > 0 || len(e.routes) > 0 {
			return e
		}
	}
	return nil
}

func (g *cfgGen) setRef(e *cfgEl, to string) {
	s := e.slots()
	if k := g.r.Intn(len(s) + len(e.routes)); k < len(s) {
		for _, x := range s {
			if *x == to {
				return
			}
		}
		*s[k] = to
	} else {
		e.routes[k-len(s)]["res"] = to
	}
}

// spoil makes it, most likely, a configuration to refuse; the specification
// decides whether it is one.
func (g *cfgGen) spoil() string {
	switch k := g.r.Intn(12); k {
	case 0, 1: // dangling
		if e := g.withRefs(); e != nil {
			g.setRef(e, []string{"nowhere", strings.ToUpper(g.els[0].id) + "x", "l0"}[g.r.Intn(3)])
		}
		return "dangling"
	case 2, 3, 4: // anything anywhere: self references and cycles
		for range 1 + g.r.Intn(2) {
			if e := g.withRefs(); e != nil {
				x := g.els[g.r.Intn(len(g.els))]
				if idle := strings.Contains(strings.Join(cfgIdle, " "), x.typ) && x.kind == "group"; !idle && (e.typ != "fastest" || x == e || x.kind == "resolver" || x.typ == "static-responder") {
					g.setRef(e, x.id)
				}
			}
		}
		return "rewired"
	case 5: // two of one name
		a, b := g.els[g.r.Intn(len(g.els))], g.els[g.r.Intn(len(g.els))]
		if a != b {
			if a.kind == b.kind {
				g.twice = true
			}
			a.id = b.id
		}
		return "twice"
	case 6, 7: // members
		for _, i := range g.r.Perm(len(g.els)) {
			e := g.els[i]
			if e.kind != "group" || e.leaf || e.typ == "lua" {
				continue
			}
			switch {
			case e.typ == "truncate-retry" && g.chance(2):
				e.retry = ""
			case cfgMany[e.typ] || g.chance(2):
				e.res = nil
			default:
				for _, x := range g.els[:2] {
					free := true
					for _, s := range e.slots() {
						free = free && *s != x.id
					}
					if free {
						e.res = append(e.res, x.id)
						break
					}
				}
			}
			break
		}
		return "members"
	case 8: // listeners
		i := g.r.Intn(len(g.ls))
		switch g.r.Intn(5) {
		case 0:
			g.ls[i]["res"] = "nowhere"
		case 1:
			g.ls[i]["proto"] = []string{"", "ucp", "UDP"}[g.r.Intn(3)]
		case 2:
			g.lt[i] = "ip-version = 5\n"
			g.ls[i]["bad"] = true
		case 3:
			g.lt[i] = "allowed-net = ['127.77.0.1/32', 'here']\n"
			g.ls[i]["bad"] = true
		case 4:
			g.lt[i] = "netns = 'a'\nxsocket = 'b'\n"
			g.ls[i]["bad"] = true
		}
		return "listener"
	case 9: // kinds
		e := g.els[g.r.Intn(len(g.els))]
		if e.kind != "router" {
			e.typ = []string{"", "nothing", strings.ToUpper(e.typ)}[g.r.Intn(3)]
		}
		return "kind"
	case 10:
		if g.chance(2) {
			g.broken = true
		} else {
			g.missingFile, g.broken = true, true
		}
		return "broken"
	default:
		g.badSetting()
		return "setting"
	}
}

type badS struct{ typ, line string }

var badSettings = []badS{
	{"ecs-modifier", "ecs-op = 'bogus'"}, {"edns0-modifier", "edns0-op = 'bogus'"}, {"ttl-modifier", "ttl-select = 'bogus'"},
	{"cache", "cache-answer-shuffle = 'bogus'"}, {"cache", "backend = {type = 'bogus'}"}, {"cache", "cache-rcode-max-ttl = {bogus = 5}"},
	{"static-responder", "answer = ['IN A bogus']"}, {"static-responder", "ns = ['bogus']"}, {"static-responder", "extra = ['bogus. IN']"},
	{"static-responder", "edns0-ede = {code = 15, text = '{{'}"},
	{"replace", "replace = [{from = '(', to = 'x'}]"}, {"blocklist", "format = 'bogus'\nblocklist = ['x']"}, {"blocklist", "blocklist = ['(']"},
	{"blocklist", "blocklist = ['x']\nsource = '/nonexistent/x'"}, {"blocklist", "source = '/nonexistent/x'"}, {"blocklist", "source = 'ftp://x/y'"},
	{"blocklist-v2", "blocklist-format = 'bogus'\nblocklist = ['x']"}, {"blocklist-v2", "blocklist = ['(']"}, {"blocklist-v2", "blocklist = ['x']\nallowlist = ['(']"},
	{"blocklist-v2", "blocklist = ['x']\nblocklist-source = [{source = '/nonexistent/x'}]"}, {"blocklist-v2", "blocklist = ['x']\nallowlist-source = [{source = '/nonexistent/x'}]"},
	{"blocklist-v2", "allowlist-format = 'bogus'\nallowlist = ['x']\nblocklist = ['x']"},
	{"blocklist-v2", "allowlist = ['x']\nallowlist-source = [{source = '/nonexistent/x'}]"}, {"blocklist-v2", "blocklist = ['x']\nedns0-ede = {code = 15, text = '{{'}"},
	{"response-blocklist-ip", "blocklist = ['here']"}, {"response-blocklist-ip", "blocklist-format = 'bogus'\nblocklist = ['10.0.0.0/8']"},
	{"response-blocklist-ip", "blocklist-source = [{source = '/nonexistent/x'}]"}, {"response-blocklist-ip", "blocklist = ['10.0.0.0/8']\nblocklist-source = [{source = 'x'}]"},
	{"response-blocklist-name", "blocklist = ['(']"}, {"response-blocklist-name", "blocklist-format = 'bogus'\nblocklist = ['x']"}, {"response-blocklist-name", "blocklist = ['x']\nblocklist-source = [{source = 'x'}]"},
	{"client-blocklist", "blocklist = ['here']"}, {"client-blocklist", "blocklist-source = [{source = '/nonexistent/x'}]"},
	{"lua", ""}, {"lua", "lua-script = 'function ('"}, {"lua", "lua-script-source = '/nonexistent/x'"}, {"lua", "lua-script = 'x = 1'"},
	{"dns64", "dns64-prefix = ['64:ff9b::/95']"}, {"dns64", "dns64-prefix = ['bogus']"}, {"syslog", "priority = 'bogus'"},
	{"query-log", "output-format = 'bogus'"},
	{"router", "type = 'BOGUS'"}, {"router", "types = ['A', 'BOGUS']"}, {"router", "name = '('"}, {"router", "source = 'here'"}, {"router", "class = 'BOGUS'"},
	{"router", "weekdays = ['someday']"}, {"router", "before = '25:00'"}, {"router", "after = 'noon'"}, {"router", "listener = '('"}, {"router", "doh-path = '('"}, {"router", "ecs-source = 'here'"}, {"router", "servername = '('"},
	{"resolver", "protocol = 'dot'\nca = '/nonexistent/x'"}, {"resolver", "protocol = 'dot'\nclient-crt = '/nonexistent/x'\nclient-key = '/nonexistent/y'"}, {"resolver", "protocol = 'udp'\nnetns = 'a'\nxsocket = 'b'"},
	{"resolver", "protocol = 'dtls'\nca = '/nonexistent/x'"}, {"resolver", "protocol = 'dtls'\nclient-crt = '/nonexistent/x'\nclient-key = '/nonexistent/y'"}, {"resolver", "protocol = 'doq'\nca = '/nonexistent/x'"}, {"resolver", "protocol = 'doq'\nclient-crt = '/nonexistent/x'\nclient-key = '/nonexistent/y'"}, {"resolver", "protocol = 'doh'\nca = '/nonexistent/x'\naddress = 'https://127.0.0.1/dns-query'\ntarget = 'https://127.0.0.2/dns-query'"}, {"resolver", "protocol = 'doh'\nclient-crt = '/nonexistent/x'\nclient-key = '/nonexistent/y'\naddress = 'https://127.0.0.1/dns-query'\ntarget = 'https://127.0.0.2/dns-query'"}, {"resolver", "protocol = 'odoh'\nca = '/nonexistent/x'\naddress = 'https://127.0.0.1/dns-query'\ntarget = 'https://127.0.0.2/dns-query'"}, {"resolver", "protocol = 'odoh'\nclient-crt = '/nonexistent/x'\nclient-key = '/nonexistent/y'\naddress = 'https://127.0.0.1/dns-query'\ntarget = 'https://127.0.0.2/dns-query'"},
	{"resolver", "protocol = 'udp'\naddress = '-a.example:53'"}, {"resolver", "protocol = 'tcp'\naddress = 'a-.example:53'"}, {"resolver", "protocol = 'dot'\naddress = 'a_b.example:853'"}, {"resolver", "protocol = 'doq'\naddress = '127.0.0.1:99999'"}, {"resolver", "protocol = 'udp'\naddress = '10.1.2:53'"}, {"resolver", "protocol = 'dtls'\naddress = '127.0.0.1:dns'"}, {"resolver", "protocol = 'dot'\naddress = ''"},
}

func (g *cfgGen) badSetting() {
	b := badSettings[g.r.Intn(len(badSettings))]
	e := &cfgEl{id: g.fresh(), kind: "group", typ: b.typ, s: J{}, bad: true, lines: []string{b.line}}
	switch b.typ {
	case "router":
		e.kind = "router"
		g.route(e, g.els[0].id)
		e.routeText[0] = b.line
	case "resolver":
		e.kind, e.typ = "resolver", strings.Split(b.line, "'")[1]
		e.lines = []string{strings.SplitN(b.line, "\n", 2)[1]}
		if !strings.Contains(b.line, "\naddress") {
			e.lines = append(e.lines, "address = '127.0.0.1:853'")
		}
	case "static-responder":
	default:
		e.res = []string{g.els[0].id}
	}
	g.els = append(g.els, e)
}

func (g *cfgGen) write() []string {
	var tables []string
	for _, e := range g.els {
		var b strings.Builder
		fmt.Fprintf(&b, "[%ss.%s]\n", e.kind, e.id)
		switch e.kind {
		case "resolver":
			fmt.Fprintf(&b, "protocol = '%s'\n", e.typ)
		case "group":
			fmt.Fprintf(&b, "type = '%s'\n", e.typ)
			if len(e.res) > 0 || g.chance(4) {
				fmt.Fprintf(&b, "resolvers = %s\n", quoteAll(e.res))
			}
			for n, v := range map[string]string{"allowlist-resolver": e.allow, "blocklist-resolver": e.block, "limit-resolver": e.limit, "retry-resolver": e.retry} {
				if v != "" {
					fmt.Fprintf(&b, "%s = '%s'\n", n, v)
				}
			}
		case "router":
			var rs []string
			for i, r := range e.routes {
				x := fmt.Sprintf("resolver = '%s'", r["res"])
				if e.routeText[i] != "" {
					x = e.routeText[i] + ", " + x
				}
				rs = append(rs, "  {"+x+"},\n")
			}
			fmt.Fprintf(&b, "routes = [\n%s]\n", strings.Join(rs, ""))
		}
		if e.kind != "router" {
			for _, l := range e.lines {
				b.WriteString(l + "\n")
			}
		}
		tables = append(tables, b.String())
	}
	for i, l := range g.ls {
		tables = append(tables, fmt.Sprintf("[listeners.%s]\naddress = '%s:%d'\nprotocol = '%s'\nresolver = '%s'\n%s", l["id"], g.ip, g.ports[i], l["proto"], l["res"], g.lt[i]))
	}
	if g.broken && !g.missingFile {
		tables = append(tables, []string{"[groups.x\n", "[groups.x]\nresolvers = 5\n", "[listeners.q]\naddress = 7\n"}[g.r.Intn(3)])
	}
	g.r.Shuffle(len(tables), func(i, j int) { tables[i], tables[j] = tables[j], tables[i] })
	var files []string
	n := 1 + g.r.Intn(3)
	for i := range n {
		lo, hi := i*len(tables)/n, (i+1)*len(tables)/n
		text := strings.Join(tables[lo:hi], "\n")
		if g.chance(2) {
			text = strings.TrimRight(text, "\n")
		}
		files = append(files, g.file(text))
	}
	if g.missingFile {
		files = append(files, filepath.Join(g.dir, "missing.toml"))
	}
	return files
}

func (g *cfgGen) json() J {
	els := A{}
	strs := func(s []string) A {
		o := A{}
		for _, x := range s {
			o = append(o, x)
		}
		return o
	}
	for _, e := range g.els {
		routes := A{}
		for _, r := range e.routes {
			routes = append(routes, r)
		}
		els = append(els, J{"id": e.id, "kind": e.kind, "type": e.typ, "res": strs(e.res), "allow": e.allow, "block": e.block, "limit": e.limit, "retry": e.retry,
			"routes": routes, "bad": e.bad, "s": e.s})
	}
	ls := A{}
	for _, l := range g.ls {
		ls = append(ls, l)
	}
	return J{"els": els, "ls": ls, "twice": g.twice, "broken": g.broken}
}

func newCfgGen(r *rand.Rand, u *cfgUp, ip, dir string, sound bool) (*cfgGen, string) {
	g := &cfgGen{r: r, u: u, dir: dir, ip: ip}
	for _, k := range r.Perm(cfgUps)[:2+r.Intn(3)] {
		g.resolver(k + 1)
	}
	if r.Intn(2) == 0 {
		g.group("static-responder")
	}
	for range 1 + r.Intn(6) {
		g.group(cfgTypes[r.Intn(len(cfgTypes))])
	}
	g.listeners()
	if r.Intn(4) == 0 {
		g.group(cfgIdle[r.Intn(len(cfgIdle))])
	}
	if r.Intn(2) == 0 {
		g.idleResolver()
	}
	what := "sound"
	if !sound {
		what = g.spoil()
	}
	return g, what
}

// bound lists the listening ports of an address.
func boundPorts(ip string) map[int]bool {
	o := map[int]bool{}
	p := net.ParseIP(ip).To4()
	want := fmt.Sprintf("%02X%02X%02X%02X:", p[3], p[2], p[1], p[0])
	for _, f := range []string{"/proc/net/tcp", "/proc/net/udp"} {
		b, _ := os.ReadFile(f)
		for sc := bufio.NewScanner(bytes.NewReader(b)); sc.Scan(); {
			w := strings.Fields(sc.Text())
			if len(w) < 4 || !strings.HasPrefix(w[1], want) || (w[3] != "0A" && w[3] != "07") {
				continue
			}
			n, _ := strconv.ParseInt(w[1][len(want):], 16, 32)
			o[int(n)] = true
		}
	}
	return o
}

func cfgAsk(g *cfgGen, l J, port, client int, m *dns.Msg) J {
	none := J{"k": "none", "rc": 0, "src": 0, "tc": false, "ttl": 0, "cn": 0, "x": false, "ede": 0}
	local := net.IPv4(127, 77, 0, byte(client))
	d := net.Dialer{Timeout: 5 * time.Second, LocalAddr: &net.TCPAddr{IP: local}}
	proto := l["proto"].(string)
	if proto == "udp" {
		d.LocalAddr = &net.UDPAddr{IP: local}
	}
	c, err := d.Dial(proto, fmt.Sprintf("%s:%d", g.ip, port))
	if err != nil {
		return none
	}
	defer c.Close()
	co := &dns.Conn{Conn: c, UDPSize: 4096}
	c.SetDeadline(time.Now().Add(4 * time.Second))
	if proto == "tcp" {
		c.SetDeadline(time.Now().Add(20 * time.Second))
	}
	if co.WriteMsg(m) != nil {
		return none
	}
	a, err := co.ReadMsg()
	if err != nil {
		return none
	}
	o := J{"k": "msg", "rc": a.Rcode, "src": 0, "tc": a.Truncated, "ttl": 0, "cn": 0, "x": false, "ede": 0}
	for _, x := range a.Answer {
		var ip net.IP
		switch v := x.(type) {
		case *dns.A:
			ip = v.A.To16()
		case *dns.AAAA:
			ip = v.AAAA
		case *dns.CNAME:
			n, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(v.Target, "t"), ".test."))
			o["cn"] = n
		}
		if ip != nil {
			n := int(ip[15])
			if ip.To4() != nil && ip.To4()[1] == 1 || ip.To4() == nil && ip[1] == 1 {
				n += 100
			}
			o["src"], o["ttl"] = n, int(x.Header().Ttl)
		}
	}
	for _, x := range append(append([]dns.RR{}, a.Ns...), a.Extra...) {
		if opt, ok := x.(*dns.OPT); ok {
			for _, y := range opt.Option {
				if e, ok := y.(*dns.EDNS0_EDE); ok {
					o["ede"] = int(e.InfoCode)
				}
			}
			continue
		}
		o["x"] = true
	}
	return o
}

func runConfig(r *rand.Rand, u *cfgUp, k int, sound bool, bin string) J {
	dir, err := os.MkdirTemp(scrtch, "cfg")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	g, what := newCfgGen(r, u, fmt.Sprintf("127.%d.%d.%d", 30+u.w, 1+k/250%250, 1+k%250), dir, sound)
	files := g.write()
	trace := filepath.Join(dir, "strace")
	args := append([]string{"-l", "2"}, files...)
	cmd := exec.Command(bin, args...)
	if !sound {
		cmd = exec.Command("strace", append([]string{"-f", "-qq", "-e", "trace=bind", "-e", "signal=none", "-o", trace, bin}, args...)...)
	}
	var errOut bytes.Buffer
	cmd.Stderr = &errOut
	cmd.Stdout = &errOut
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	over := make(chan error, 1)
	go func() { over <- cmd.Wait() }()
	ev := A{}
	out := func() J {
		var text A
		for _, f := range files {
			b, _ := os.ReadFile(f)
			text = append(text, string(b))
		}
		return J{"cfg": g.json(), "ev": ev, "what": what, "files": text}
	}
	exit := func() J {
		b, _ := os.ReadFile(trace)
		served := false
		for _, l := range strings.Split(string(b), "\n") {
			served = served || strings.Contains(l, `"`+g.ip+`"`)
		}
		s := errOut.String()
		crash := strings.Contains(s, "panic:") || strings.Contains(s, "goroutine ")
		if len(s) > 2000 {
			s = s[:2000]
		}
		ev = append(ev, J{"e": "exit", "code": cmd.ProcessState.ExitCode(), "served": served, "crash": crash, "err": s})
		return out()
	}
	stop := func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGTERM)
		select {
		case <-over:
		case <-time.After(5 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-over
		}
	}
	for end := time.Now().Add(30 * time.Second); ; {
		up := true
		ports := boundPorts(g.ip)
		for _, p := range g.ports {
			up = up && ports[p]
		}
		if up {
			break
		}
		if time.Now().After(end) {
			stop()
			ev = append(ev, J{"e": "hang"})
			return out()
		}
		select {
		case <-over:
			return exit()
		case <-time.After(5 * time.Millisecond):
		}
	}
	ev = append(ev, J{"e": "up"})
	nl := 0
	for _, l := range g.ls {
		if l["proto"] != "admin" {
			nl++
		}
	}
	for n := range 3 + r.Intn(12) {
		li := r.Intn(nl)
		lab := n
		if !g.hasFastest && n > 0 && r.Intn(3) == 0 {
			lab = r.Intn(n)
		}
		name, typ, cl := cfgNames[r.Intn(3)], []string{"A", "AAAA"}[r.Intn(2)], 1+r.Intn(3)
		if lab != n { // likely to be the same question
			name, typ = cfgNames[lab%3], "A"
		} else if r.Intn(2) == 0 {
			name, typ = cfgNames[n%3], "A"
		}
		m := new(dns.Msg)
		m.SetQuestion(fmt.Sprintf("q%d.%s.test.", lab, name), dns.StringToType[typ])
		m.SetEdns0(4096, false)
		ecs, opt := ecsNetJ("-", 0), "-"
		if r.Intn(4) == 0 {
			ecs = ecsNetJ("198.51.100.7", 32)
			m.IsEdns0().Option = append(m.IsEdns0().Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: 32, Address: net.IPv4(198, 51, 100, 7).To4()})
		}
		if r.Intn(4) == 0 {
			opt = "own"
			m.IsEdns0().Option = append(m.IsEdns0().Option, &dns.EDNS0_LOCAL{Code: 65001, Data: []byte("own")})
		}
		beh := A{}
		u.mu.Lock()
		u.seen, u.beh, u.label = nil, nil, fmt.Sprintf("q%d", lab)
		for range cfgUps {
			b := []string{"ok", "ok", "ok", "ok", "nx", "servfail", "refused", "empty", "trunc"}[r.Intn(9)]
			u.beh = append(u.beh, b)
			beh = append(beh, b)
		}
		u.mu.Unlock()
		a := cfgAsk(g, g.ls[li], g.ports[li], cl, m)
		u.mu.Lock()
		seen := A{}
		for _, s := range u.seen {
			seen = append(seen, s)
		}
		u.label = ""
		u.mu.Unlock()
		ev = append(ev, J{"e": "q", "q": J{"n": name, "t": typ, "lab": lab, "cl": cl, "ecs": ecs, "opt": opt, "lid": g.ls[li]["id"], "beh": beh}, "v": seen, "a": a})
	}
	select {
	case <-over:
		return exit()
	default:
	}
	stop()
	return out()
}

func TestConfig(t *testing.T) {
	n, bin := envInt("VERIF_N", 100), os.Getenv("VERIF_BINARY")
	ca, other := newCA("good"), newCA("other")
	dir := filepath.Join(scrtch, "tls")
	os.MkdirAll(dir, 0o700)
	caF, _, _ := ca.files(dir, "good", ca.issue())
	badCA, _, _ := other.files(dir, "other", other.issue())
	_, crt, key := ca.files(dir, "srv", ca.issue())
	os.Rename(crt, filepath.Join(dir, "ca.pem"))
	os.Rename(key, filepath.Join(dir, "ca.key"))
	port, tport, dead := freePort(), freePort(), freePort()
	var mu sync.Mutex
	var wg sync.WaitGroup
	jobs := make(chan int)
	for w := range 8 {
		u := newCfgUp(t, w, port, tport, dead, ca, caF, badCA, dir)
		wg.Go(func() {
			for k := range jobs {
				tr := runConfig(newRand(64000+int64(k)), u, k, k%2 == 0, bin)
				mu.Lock()
				emit(tr)
				mu.Unlock()
			}
		})
	}
	for k := range n {
		jobs <- k
	}
	close(jobs)
	wg.Wait()
	done()
}
