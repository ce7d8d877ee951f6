package zzverif

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	odoh "github.com/cloudflare/odoh-go"
	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

// upCase is one query and what the server does with it.
type upCase struct {
	tp    string
	mode  string // msg, silent, close, short (less than announced)
	seed  int64
	stat  int
	ctype string
	mu    sync.Mutex
	wire  []byte // what the server received
	wraw  int    // number of DNS bytes received
	nw    int    // how often
	raw   []byte // the DNS message it sent
	big   int
	enc   string // oblivious: ok, wrongkey, garbage, plain
}

type upServer struct {
	mu    sync.Mutex
	cases map[string]*upCase
}

func (s *upServer) put(name string, c *upCase) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cases[strings.ToLower(name)] = c
}

// take finds the case of a received query and builds the reply bytes.
func (s *upServer) take(b []byte) (*upCase, []byte) {
	q := new(dns.Msg)
	if q.Unpack(b) != nil || len(q.Question) == 0 {
		return nil, nil
	}
	s.mu.Lock()
	c := s.cases[strings.ToLower(q.Question[0].Name)]
	s.mu.Unlock()
	if c == nil {
		return nil, nil
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wire = append([]byte{}, b...)
	c.wraw = len(b)
	c.nw++
	c.raw = c.reply(q)
	return c, c.raw
}

// reply builds the reply bytes: correct, or altered in one of many ways.
func (c *upCase) reply(q *dns.Msg) []byte {
	r := rand.New(rand.NewSource(c.seed))
	a := new(dns.Msg)
	a.SetReply(q)
	a.Rcode = []int{0, 0, 0, 2, 3, 5, 9}[r.Intn(7)]
	a.Authoritative = r.Intn(2) == 0
	a.RecursionAvailable = r.Intn(2) == 0
	a.AuthenticatedData = r.Intn(2) == 0
	n := []int{0, 1, 1, 2, 5, 60}[r.Intn(6)]
	for i := 0; i < n; i++ {
		a.Answer = append(a.Answer, randRR(r, q.Question[0].Name))
	}
	for i := r.Intn(2); i > 0; i-- {
		a.Ns = append(a.Ns, randRR(r, "example."))
	}
	for i := r.Intn(2); i > 0; i-- {
		a.Extra = append(a.Extra, randRR(r, "ns.example."))
	}
	a.Compress = r.Intn(2) == 0
	if r.Intn(2) == 0 {
		a.SetEdns0(uint16(512+r.Intn(4000)), r.Intn(2) == 0)
		o := a.IsEdns0()
		if r.Intn(2) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_PADDING{Padding: make([]byte, r.Intn(200))})
		}
		if r.Intn(4) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_EDE{InfoCode: 15, ExtraText: "x"})
		}
		if r.Intn(4) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_TCP_KEEPALIVE{Code: dns.EDNS0TCPKEEPALIVE, Timeout: 10})
		}
		if r.Intn(3) == 0 {
			o.Hdr.Ttl |= 1 << 24 // extended response code
			a.Rcode |= 1 << 4
		}
	}
	cut := 0
	switch r.Intn(14) {
	case 0:
		a.Question[0].Name = strings.ToUpper(a.Question[0].Name)
	case 1:
		a.Question = nil
	case 2:
		a.Question[0].Name = "other." + a.Question[0].Name
	case 3:
		a.Question[0].Qtype ^= 1 << r.Intn(8)
	case 4:
		a.Question[0].Qclass = dns.ClassCHAOS
	case 5:
		b := []byte(a.Question[0].Name)
		b[0] = b[0] ^ 1
		a.Question[0].Name = string(b)
	case 6:
		cut = 1 + r.Intn(20)
	case 7:
		cut = -1
	case 8:
		if c.mode == "msg" && (c.tp == "udp" || c.tp == "tcp" || c.tp == "dot" || c.tp == "dtls") {
			break
		}
		a.Id += uint16(r.Intn(3))
	}
	b, err := a.Pack()
	if err != nil {
		panic(err)
	}
	for c.tp == "udp" && len(b) > 4000 || c.tp == "dtls" && len(b) > 4000 {
		a.Answer = a.Answer[:len(a.Answer)/2]
		b, _ = a.Pack()
	}
	switch {
	case cut > 0:
		b = b[:max(len(b)-cut, 0)]
	case cut < 0:
		for k := 1 + r.Intn(3); k > 0; k-- {
			i := 2 + r.Intn(len(b)-2)
			b[i] ^= 1 << r.Intn(8)
		}
	}
	for len(b) < c.big {
		b = append(b, 0)
	}
	return b
}

func randRR(r *rand.Rand, name string) dns.RR {
	ttl := r.Intn(5000)
	switch r.Intn(6) {
	case 0:
		return rr(fmt.Sprintf("%s %d IN A 10.%d.%d.%d", name, ttl, r.Intn(256), r.Intn(256), r.Intn(256)))
	case 1:
		return rr(fmt.Sprintf("%s %d IN AAAA 2001:db8::%x", name, ttl, r.Intn(65536)))
	case 2:
		return rr(fmt.Sprintf("%s %d IN CNAME t%d.%s", name, ttl, r.Intn(9), strings.TrimPrefix(name, ".")))
	case 3:
		return rr(fmt.Sprintf("%s %d IN TXT \"%s\"", name, ttl, strings.Repeat("x", r.Intn(200))))
	case 4:
		return rr(fmt.Sprintf("%s %d IN MX %d mx.%s", name, ttl, r.Intn(100), strings.TrimPrefix(name, ".")))
	default:
		return rr(fmt.Sprintf("%s %d IN TYPE65400 \\# 3 010203", name, ttl))
	}
}

func frame(b []byte) []byte { return append(binary.BigEndian.AppendUint16(nil, uint16(len(b))), b...) }

// ---------------------------------------------------------------- servers

func (s *upServer) udp(addr string) {
	pc, err := net.ListenPacket("udp", addr)
	if err != nil {
		panic(err)
	}
	spoof, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			buf := make([]byte, 65536)
			n, from, err := pc.ReadFrom(buf)
			if err != nil {
				return
			}
			c, b := s.take(buf[:n])
			if c == nil {
				continue
			}
			// a forged answer from elsewhere must not be taken
			q := new(dns.Msg)
			q.Unpack(buf[:n])
			f := reply(q, 0, q.Question[0].Name+" 60 IN A 6.6.6.6")
			if fb, err := f.Pack(); err == nil {
				spoof.WriteTo(fb, from)
			}
			if c.mode == "msg" {
				pc.WriteTo(b, from)
			}
		}
	}()
}

func (s *upServer) stream(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			var mu sync.Mutex
			for {
				var lb [2]byte
				if _, err := io.ReadFull(c, lb[:]); err != nil {
					return
				}
				b := make([]byte, binary.BigEndian.Uint16(lb[:]))
				if _, err := io.ReadFull(c, b); err != nil {
					return
				}
				uc, r := s.take(b)
				if uc == nil {
					continue
				}
				mu.Lock()
				switch uc.mode {
				case "msg":
					c.Write(frame(r))
				case "close":
					mu.Unlock()
					return
				case "short":
					f := frame(r)
					c.Write(f[:len(f)-1])
					mu.Unlock()
					return
				}
				mu.Unlock()
			}
		}()
	}
}

func (s *upServer) http(w http.ResponseWriter, req *http.Request) {
	var b []byte
	if req.Method == "GET" {
		b, _ = base64.RawURLEncoding.DecodeString(req.URL.Query().Get("dns"))
	} else {
		b, _ = io.ReadAll(req.Body)
	}
	c, r := s.take(b)
	if c == nil {
		w.WriteHeader(400)
		return
	}
	s.httpReply(w, req, c, r, "application/dns-message")
}

func (s *upServer) httpReply(w http.ResponseWriter, req *http.Request, c *upCase, r []byte, ctype string) {
	switch c.mode {
	case "silent":
		<-req.Context().Done()
		return
	case "close":
		panic(http.ErrAbortHandler)
	case "short":
		w.Header().Set("Content-Type", ctype)
		w.Header().Set("Content-Length", fmt.Sprint(len(r)+1))
		w.WriteHeader(c.stat)
		w.Write(r)
		panic(http.ErrAbortHandler)
	}
	w.Header().Set("Content-Type", ctype)
	w.WriteHeader(c.stat)
	w.Write(r)
}

func (s *upServer) doq(l *quic.EarlyListener) {
	for {
		conn, err := l.Accept(context.Background())
		if err != nil {
			return
		}
		go func() {
			for {
				st, err := conn.AcceptStream(context.Background())
				if err != nil {
					return
				}
				go func() {
					b, err := io.ReadAll(st)
					if err != nil || len(b) < 2 {
						return
					}
					c, r := s.take(b[2:])
					if c == nil {
						st.CancelWrite(1)
						return
					}
					if int(binary.BigEndian.Uint16(b)) != len(b)-2 {
						c.mu.Lock()
						c.nw += 100 // badly framed
						c.mu.Unlock()
					}
					switch c.mode {
					case "msg":
						st.Write(frame(r))
						st.Close()
					case "short":
						f := frame(r)
						st.Write(f[:len(f)-1])
						st.Close()
					case "reset":
						st.CancelWrite(1)
					case "close":
						conn.CloseWithError(0, "")
					}
				}()
			}
		}()
	}
}

func (s *upServer) odohHTTP(kp odoh.ObliviousDoHKeyPair, other odoh.ObliviousDoHKeyPair) http.HandlerFunc {
	return func(w http.ResponseWriter, req *http.Request) {
		b, _ := io.ReadAll(req.Body)
		m, err := odoh.UnmarshalDNSMessage(b)
		if err != nil {
			w.WriteHeader(400)
			return
		}
		oq, rc, err := kp.DecryptQuery(m)
		if err != nil {
			w.WriteHeader(401)
			return
		}
		c, r := s.take(oq.Message())
		if c == nil {
			w.WriteHeader(400)
			return
		}
		if len(r) > 60000 {
			r = r[:60000]
		}
		enc, err := rc.EncryptResponse(odoh.CreateObliviousDNSResponse(r, uint16(c.seed%3)*16))
		if err != nil {
			w.WriteHeader(500)
			return
		}
		out := enc.Marshal()
		switch c.enc {
		case "garbage":
			out[len(out)-1] ^= 1
		case "plain":
			out = r
		case "short":
			out = out[:len(out)/2]
		}
		ct := "application/oblivious-dns-message"
		if c.ctype != "" {
			ct = c.ctype
		}
		for len(out) < c.big {
			out = append(out, 0)
		}
		s.httpReply(w, req, c, out, ct)
	}
}

// ---------------------------------------------------------------- driver

func randQuery(r *rand.Rand, n int) *dns.Msg {
	q := new(dns.Msg)
	name := randCase(r, fmt.Sprintf("n%d.c%d.%s.example.", n, r.Intn(1<<20), strings.Repeat("ab", 1+r.Intn(30))))
	q.SetQuestion(name, []uint16{1, 28, 16, 15, 65, 65400, 255}[r.Intn(7)])
	q.Id = uint16(r.Intn(65536))
	q.RecursionDesired = r.Intn(2) == 0
	q.CheckingDisabled = r.Intn(2) == 0
	q.AuthenticatedData = r.Intn(2) == 0
	if r.Intn(12) == 0 {
		q.Opcode = dns.OpcodeNotify
	}
	if r.Intn(4) > 0 {
		q.SetEdns0(uint16(512+r.Intn(4000)), r.Intn(2) == 0)
		o := q.IsEdns0()
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(5) {
			case 0:
				o.Option = append(o.Option, &dns.EDNS0_PADDING{Padding: make([]byte, r.Intn(300))})
			case 1:
				o.Option = append(o.Option, &dns.EDNS0_TCP_KEEPALIVE{Code: dns.EDNS0TCPKEEPALIVE})
			case 2:
				o.Option = append(o.Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0123456789abcdef"})
			case 3:
				o.Option = append(o.Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: 24, Address: net.IP{192, 0, 2, 0}})
			default:
				o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: 65001, Data: make([]byte, r.Intn(130))})
			}
		}
	}
	return q
}

type upClient struct {
	tp    string
	size  int
	mk    func(timeout time.Duration) rdns.Resolver
	long  rdns.Resolver
	short rdns.Resolver
}

func TestClients(t *testing.T) {
	stop := watchdog(12*time.Minute, "clients")
	defer stop()
	n := envInt("VERIF_N", 100)
	rnd := newRand(81)
	ca, other := newCA("good"), newCA("other")
	crt := ca.issue()
	srv := &upServer{cases: map[string]*upCase{}}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	addr := func(p int) string { return fmt.Sprintf("127.0.0.1:%d", p) }
	pUDP, pTCP, pDoT, pDTLS, pDoH, pH3, pDoQ, pODoH := freePort(), freePort(), freePort(), freePort(), freePort(), freePort(), freePort(), freePort()
	srv.udp(addr(pUDP))
	l, err := net.Listen("tcp", addr(pTCP))
	must(err)
	go srv.stream(l)
	tc := &tls.Config{Certificates: []tls.Certificate{crt}}
	l, err = tls.Listen("tcp", addr(pDoT), tc)
	must(err)
	go srv.stream(l)
	dl, err := dtls.Listen("udp", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: pDTLS}, &dtls.Config{Certificates: []tls.Certificate{crt}})
	must(err)
	go srv.stream(dtlsBuf{dl})
	quiet := newQuietLog()
	h := &http.Server{Addr: addr(pDoH), Handler: http.HandlerFunc(srv.http), TLSConfig: tc.Clone(), ErrorLog: quiet}
	go h.ListenAndServeTLS("", "")
	h3 := &http3.Server{Addr: addr(pH3), Handler: http.HandlerFunc(srv.http), TLSConfig: http3.ConfigureTLSConfig(tc.Clone())}
	go h3.ListenAndServe()
	qc := tc.Clone()
	qc.NextProtos = []string{"doq"}
	ql, err := quic.ListenAddrEarly(addr(pDoQ), qc, &quic.Config{MaxIncomingStreams: 1 << 20})
	must(err)
	go srv.doq(ql)
	seedOf := func(b byte) []byte { return bytes.Repeat([]byte{b}, 32) }
	kp, err := odoh.CreateKeyPairFromSeed(0x0020, 0x0001, 0x0001, seedOf(1))
	must(err)
	kp2, err := odoh.CreateKeyPairFromSeed(0x0020, 0x0001, 0x0001, seedOf(2))
	must(err)
	conf := odoh.CreateObliviousDoHConfigs([]odoh.ObliviousDoHConfig{kp.Config}).Marshal()
	conf2 := odoh.CreateObliviousDoHConfigs([]odoh.ObliviousDoHConfig{kp2.Config}).Marshal()
	var confMu sync.Mutex
	confStatus, confBody := 200, conf
	mux := http.NewServeMux()
	mux.HandleFunc("/dns-query", srv.odohHTTP(kp, kp2))
	mux.HandleFunc("/proxy", srv.odohHTTP(kp, kp2))
	mux.HandleFunc("/.well-known/odohconfigs", func(w http.ResponseWriter, req *http.Request) {
		confMu.Lock()
		st, body := confStatus, confBody
		confMu.Unlock()
		if st == 1 { // never answers
			<-req.Context().Done()
			return
		}
		stuck := st == 2 // stops in the middle of the answer
		if stuck {
			st = 200
			w.Header().Set("Content-Length", fmt.Sprint(len(body)))
			body = body[:len(body)/2]
		}
		w.WriteHeader(st)
		w.Write(body)
		if stuck {
			w.(http.Flusher).Flush()
			<-req.Context().Done()
		}
	})
	ho := &http.Server{Addr: addr(pODoH), Handler: mux, TLSConfig: tc.Clone(), ErrorLog: quiet}
	go ho.ListenAndServeTLS("", "")
	for _, p := range []int{pTCP, pDoT, pDoH, pODoH} {
		for {
			c, err := net.Dial("tcp", addr(p))
			if err == nil {
				c.Close()
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	time.Sleep(100 * time.Millisecond)

	mk := func(r rdns.Resolver, err error) rdns.Resolver {
		if err != nil {
			panic(err)
		}
		return r
	}
	cliTLS := func(c *testCA) *tls.Config { return &tls.Config{RootCAs: c.pool} }
	build := func(tp string, port int, c *testCA, size uint16, tmo time.Duration) rdns.Resolver {
		if port == 0 {
			port = map[string]int{"udp": pUDP, "tcp": pTCP, "dot": pDoT, "dtls": pDTLS, "doh-post": pDoH, "doh-get": pDoH, "doh3-post": pH3, "doh3-get": pH3, "doq": pDoQ, "odoh": pODoH}[tp]
		}
		id := "c-" + tp
		url := "https://" + addr(port) + "/dns-query"
		switch tp {
		case "udp", "tcp":
			return mk(rdns.NewDNSClient(id, addr(port), tp, rdns.DNSClientOptions{UDPSize: size, QueryTimeout: tmo}))
		case "dot":
			return mk(rdns.NewDoTClient(id, addr(port), rdns.DoTClientOptions{TLSConfig: cliTLS(c), QueryTimeout: tmo}))
		case "dtls":
			return mk(rdns.NewDTLSClient(id, addr(port), rdns.DTLSClientOptions{UDPSize: size, QueryTimeout: tmo, DTLSConfig: &dtls.Config{RootCAs: c.pool, ServerName: "localhost"}}))
		case "doh-post":
			return mk(rdns.NewDoHClient(id, url, rdns.DoHClientOptions{Method: "POST", TLSConfig: cliTLS(c), QueryTimeout: tmo}))
		case "doh-get":
			return mk(rdns.NewDoHClient(id, url+"{?dns}", rdns.DoHClientOptions{Method: "GET", TLSConfig: cliTLS(c), QueryTimeout: tmo}))
		case "doh3-post":
			return mk(rdns.NewDoHClient(id, url, rdns.DoHClientOptions{Transport: "quic", TLSConfig: cliTLS(c), QueryTimeout: tmo}))
		case "doh3-get":
			return mk(rdns.NewDoHClient(id, url+"{?dns}", rdns.DoHClientOptions{Method: "GET", Transport: "quic", TLSConfig: cliTLS(c), QueryTimeout: tmo}))
		case "doq":
			return mk(rdns.NewDoQClient(id, addr(port), rdns.DoQClientOptions{TLSConfig: cliTLS(c), QueryTimeout: tmo}))
		case "odoh":
			return mk(rdns.NewODoHClient(id, "https://"+addr(port)+"/proxy", url, hex.EncodeToString(conf), rdns.DoHClientOptions{TLSConfig: cliTLS(c), QueryTimeout: tmo}))
		}
		panic(tp)
	}
	tps := []string{"udp", "tcp", "dot", "dtls", "doh-post", "doh-get", "doh3-post", "doh3-get", "doq", "odoh"}
	longT, shortT := 30*time.Second, 250*time.Millisecond
	ask := func(tp string, r rdns.Resolver, q *dns.Msg, c *upCase, size int, mayFail bool, what string) bool {
		c.tp = tp
		srv.put(q.Question[0].Name, c)
		before := q.Copy()
		t0 := time.Now()
		var a *dns.Msg
		err := errHung
		ret := make(chan struct{})
		go func() {
			x, e := r.Resolve(q, rdns.ClientInfo{SourceIP: net.IP{127, 0, 0, 1}})
			a, err = x, e
			close(ret)
		}()
		hung := false
		select {
		case <-ret:
		case <-time.After(45 * time.Second):
			hung = true
		}
		took := time.Since(t0)
		c.mu.Lock()
		defer c.mu.Unlock()
		wm := J{"nil": true}
		if c.wire != nil {
			m := new(dns.Msg)
			if m.Unpack(c.wire) == nil {
				wm = msgJ(m)
			}
		}
		rep := J{"k": c.mode, "stat": c.stat, "ctype": c.ctype == "", "enc": c.enc == "ok" || c.enc == "", "size": len(c.raw), "dec": false, "m": J{"nil": true}, "ka": false, "ql": A{}}
		if c.big > len(c.raw) {
			rep["size"] = c.big
		}
		rm := new(dns.Msg)
		if c.raw != nil && rm.Unpack(c.raw) == nil {
			rep["dec"] = true
			rep["m"] = msgJ(rm)
			rep["ka"] = hasKeepalive(rm)
			rep["ql"] = lowerQ(rm)
		} else if c.raw != nil && len(c.raw) > 2 {
			rep["ka"] = c.raw[2]&2 != 0 && len(c.raw) >= 12 // undecodable and marked truncated
		}
		out := J{"k": "err", "m": J{"nil": true}}
		if hung {
			out["k"] = "hung"
		} else if err == nil {
			out = retJ(a, nil)
		}
		after := q
		if hung {
			after = before
		}
		emit(J{"tp": tp, "what": what, "cs": size, "may": mayFail, "q": msgJ(before), "ql": lowerQ(before), "same": sameMsg(before, after), "wire": J{"n": c.nw, "len": c.wraw, "m": wm}, "rep": rep, "out": out, "ms": int(took / time.Millisecond)})
		return !hung && err == nil
	}
	var wg sync.WaitGroup
	nq := 0
	var nmu sync.Mutex
	next := func() int {
		nmu.Lock()
		defer nmu.Unlock()
		nq++
		return nq
	}
	for _, tp := range tps {
		r := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var size uint16
			if tp == "udp" || tp == "tcp" || tp == "dtls" {
				size = []uint16{0, 1232}[r.Intn(2)]
			}
			long, short := build(tp, 0, ca, size, longT), build(tp, 0, ca, size, shortT)
			isHTTP := strings.HasPrefix(tp, "doh") || tp == "odoh"
			newCase := func() *upCase { return &upCase{mode: "msg", seed: r.Int63(), stat: 200} }
			for i := 0; i < n; i++ {
				if i == n/2 && size != 0 || i == n/2 && (tp == "udp" || tp == "tcp" || tp == "dtls") {
					size = 1232 - size
					long, short = build(tp, 0, ca, size, longT), build(tp, 0, ca, size, shortT)
				}
				q := randQuery(r, next())
				c := newCase()
				switch {
				case isHTTP && r.Intn(6) == 0:
					c.stat = []int{200, 201, 203, 299, 300, 304, 400, 403, 404, 415, 500, 503}[r.Intn(12)]
				case tp == "odoh" && r.Intn(5) == 0:
					c.enc = []string{"garbage", "plain", "short"}[r.Intn(3)]
				case tp == "odoh" && r.Intn(8) == 0:
					c.ctype = []string{"application/dns-message", "text/plain"}[r.Intn(2)]
				case isHTTP && r.Intn(20) == 0:
					c.big = []int{60000, 65535, 66048, 70000, 200000}[r.Intn(5)]
				}
				ask(tp, long, q, c, int(size), false, "reply")
			}
			// failures: only an error will do, and afterwards it works again
			for i := 0; i < max(3, n/60); i++ {
				modes := []string{"close", "short"}
				if tp == "udp" {
					modes = nil
				}
				if tp == "doq" {
					modes = append(modes, "reset")
				}
				for _, m := range modes {
					c := newCase()
					c.mode = m
					ask(tp, long, randQuery(r, next()), c, int(size), false, m)
					ok := false
					for try := 0; try < 5 && !ok; try++ {
						// the first attempts may still hit the dying connection
						cc := newCase()
						cc.seed = goodSeed(tp)
						ok = ask(tp, long, randQuery(r, next()), cc, int(size), try < 4, "recover")
					}
				}
			}
			for i := 0; i < max(2, n/200); i++ {
				c := newCase()
				c.mode = "silent"
				ask(tp, short, randQuery(r, next()), c, int(size), false, "silent")
			}
			// nobody listens there; a server with a certificate from another authority
			c := newCase()
			ask(tp, build(tp, freePort(), ca, size, shortT), randQuery(r, next()), c, int(size), false, "refused")
			if tp != "udp" && tp != "tcp" {
				c := newCase()
				ask(tp, build(tp, 0, other, size, 3*time.Second), randQuery(r, next()), c, int(size), false, "untrusted")
			}
		}()
	}
	wg.Wait()
	// oblivious: the key is fetched from the target
	garbage := func(b []byte, f func([]byte)) []byte {
		b = append([]byte{}, b...)
		f(b)
		return b
	}
	for _, v := range []struct {
		what string
		st   int
		body []byte
		ok   bool
	}{
		{"good", 200, conf, true},
		{"empty", 200, []byte{}, false},
		{"no keys", 200, []byte{0, 0}, false},
		{"html", 200, []byte("<html>not found</html>"), false},
		{"404", 404, []byte("not found"), false},
		{"500 without body", 500, nil, false},
		{"cut", 200, conf[:len(conf)/2], false},
		{"version", 200, garbage(conf, func(b []byte) { b[3] = 9 }), false},
		{"other key", 200, conf2, false},
		{"long", 200, make([]byte, 100000), false},
		{"zeros", 200, make([]byte, 40), false},
		{"stuck", 2, conf, false},
		{"silent", 1, conf, false},
	} {
		confMu.Lock()
		confStatus, confBody = v.st, v.body
		confMu.Unlock()
		r := mk(rdns.NewODoHClient("o", "https://"+addr(pODoH)+"/proxy", "https://"+addr(pODoH)+"/dns-query", "", rdns.DoHClientOptions{TLSConfig: cliTLS(ca), QueryTimeout: map[bool]time.Duration{true: longT, false: 2 * time.Second}[v.ok]}))
		for k := 0; k < 2; k++ {
			c := &upCase{mode: "msg", stat: 200, seed: goodSeed("odoh")}
			if !v.ok {
				c.enc = "nokey"
			}
			ask("odoh", r, randQuery(rnd, next()), c, 0, false, "key: "+v.what)
		}
	}
}

var errHung = errors.New("no outcome")

// goodSeed finds a seed for which the reply is correct.
var goodMu sync.Mutex
var goodSeeds = map[string]int64{}

func goodSeed(tp string) int64 {
	goodMu.Lock()
	defer goodMu.Unlock()
	if s, ok := goodSeeds[tp]; ok {
		return s
	}
	for s := int64(1); ; s++ {
		q := query("probe.example.", 1)
		q.Id = 0
		c := &upCase{tp: tp, seed: s, mode: "msg"}
		b := c.reply(q)
		m := new(dns.Msg)
		if m.Unpack(b) == nil && len(m.Question) == 1 && m.Question[0] == q.Question[0] && !hasKeepalive(m) && m.Id == 0 && m.Rcode == 0 && len(m.Answer) == 1 {
			goodSeeds[tp] = s
			return s
		}
	}
}

func hasKeepalive(m *dns.Msg) bool {
	if o := m.IsEdns0(); o != nil {
		for _, e := range o.Option {
			if e.Option() == dns.EDNS0TCPKEEPALIVE {
				return true
			}
		}
	}
	return false
}

func sameMsg(a, b *dns.Msg) bool {
	x, err1 := a.Copy().Pack()
	y, err2 := b.Copy().Pack()
	return err1 == nil && err2 == nil && bytes.Equal(x, y) && a.Compress == b.Compress
}

// dtlsBuf lets a DTLS connection be read in pieces.
type dtlsBuf struct{ net.Listener }

func (l dtlsBuf) Accept() (net.Conn, error) {
	for {
		c, err := l.Listener.Accept()
		if err != nil {
			if errors.Is(err, net.ErrClosed) {
				return nil, err
			}
			time.Sleep(5 * time.Millisecond)
			continue
		}
		return &dtlsBufConn{Conn: c}, nil
	}
}

type dtlsBufConn struct {
	net.Conn
	rest []byte
}

func (c *dtlsBufConn) Read(p []byte) (int, error) {
	if len(c.rest) == 0 {
		b := make([]byte, 65536)
		n, err := c.Conn.Read(b)
		if err != nil {
			return 0, err
		}
		c.rest = b[:n]
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func lowerQ(m *dns.Msg) A {
	r := A{}
	for _, q := range m.Question {
		r = append(r, J{"n": strings.ToLower(q.Name), "t": int(q.Qtype), "c": int(q.Qclass)})
	}
	return r
}
