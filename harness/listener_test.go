package zzverif

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	odoh "github.com/cloudflare/odoh-go"
	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

const lwait = 12 * time.Second // how long a client waits for what has to come

// shortIP is an address as bytes, IPv4 in 4 bytes.
func shortIP(ip net.IP) A {
	if v4 := ip.To4(); v4 != nil {
		ip = v4
	}
	r := A{}
	for _, b := range ip {
		r = append(r, int(b))
	}
	return r
}

func netJ(n *net.IPNet) J {
	p, _ := n.Mask.Size()
	return J{"ip": shortIP(n.IP), "p": p}
}

// ---------------------------------------------------------------- resolver

// lcase is what the resolver does with one query.
type lcase struct {
	log   *evlog
	i     int
	sent  string // the query as sent
	out   string // ans, err, nil
	ans   *dns.Msg
	delay time.Duration

	mu    sync.Mutex
	calls int
	seen  net.IP
}

type lresolver struct {
	mu    sync.Mutex
	cases map[string]*lcase
	stray int
}

func newLResolver() *lresolver { return &lresolver{cases: map[string]*lcase{}} }

func (l *lresolver) put(name string, c *lcase) {
	l.mu.Lock()
	l.cases[strings.ToLower(name)] = c
	l.mu.Unlock()
}

func (l *lresolver) String() string { return "r" }

func (l *lresolver) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	var c *lcase
	l.mu.Lock()
	if len(q.Question) > 0 {
		c = l.cases[strings.ToLower(q.Question[0].Name)]
	}
	if c == nil {
		l.stray++
	}
	l.mu.Unlock()
	if c == nil {
		return nil, nil
	}
	c.mu.Lock()
	c.calls++
	c.seen = ci.SourceIP
	c.mu.Unlock()
	if c.log != nil {
		c.log.add(J{"e": "call", "i": c.i, "src": shortIP(ci.SourceIP), "proto": ci.Protocol, "lid": ci.Listener, "laddr": ci.ListenerAddr,
			"sni": ci.TLSServerName, "path": ci.DoHPath, "qok": q.String() == c.sent})
	}
	time.Sleep(c.delay)
	if c.log != nil {
		txt := ""
		if c.out == "ans" {
			txt = replyText(c.ans)
		}
		c.log.add(J{"e": "ret", "i": c.i, "out": c.out, "txt": txt})
	}
	switch c.out {
	case "err":
		return nil, errUp
	case "nil":
		return nil, nil
	}
	return c.ans.Copy(), nil
}

// replyText is everything in a reply a client goes by, without ID, question and EDNS0.
func replyText(m *dns.Msg) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d %v %v %v %v %v %v", m.Opcode, m.Rcode, m.Authoritative, m.Truncated, m.RecursionDesired, m.RecursionAvailable, m.AuthenticatedData, m.CheckingDisabled)
	for _, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		b.WriteString(" |")
		for _, x := range s {
			if _, ok := x.(*dns.OPT); !ok {
				b.WriteString(" " + x.String())
			}
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- listeners

type lworld struct {
	dir    string
	ca     *testCA
	other  *testCA
	server tls.Certificate
	caF    string
	crtF   string
	keyF   string
	n      int
}

func newLWorld() *lworld {
	w := &lworld{ca: newCA("ca"), other: newCA("other")}
	d, err := os.MkdirTemp(scrtch, "tls")
	if err != nil {
		panic(err)
	}
	w.dir = d
	w.server = w.ca.issue("dns.example", "other.example")
	w.caF, w.crtF, w.keyF = w.ca.files(d, "server", w.server)
	return w
}

type lopt struct {
	kind   string // udp udp4 udp6 tcp tcp4 tcp6 dot dtls doh doh-plain doh3 doq odoh odoh-doh
	host   string
	nets   []*net.IPNet
	proxy  *net.IPNet
	mutual bool
}

type lsrv struct {
	lopt
	w    *lworld
	id   string
	addr string // as configured
	dial string // for clients
	l    rdns.Listener
	done chan error
}

const odohSeed = "0102030405060708091011121314151617181920212223242526272829303132"

func (s *lsrv) class() string {
	switch {
	case strings.HasPrefix(s.kind, "udp"):
		return "udp"
	case strings.HasPrefix(s.kind, "tcp"):
		return "tcp"
	case strings.HasPrefix(s.kind, "doh"), s.kind == "odoh-doh":
		return "doh"
	}
	return s.kind
}

func (s *lsrv) datagram() bool {
	return s.class() == "udp" || s.kind == "dtls" || s.kind == "doq" || s.kind == "doh3"
}

func (w *lworld) start(o lopt, r rdns.Resolver) *lsrv {
	for {
		if s := w.tryStart(o, r); s != nil {
			return s
		}
	}
}

func (w *lworld) tryStart(o lopt, r rdns.Resolver) *lsrv {
	w.n++
	port := freePort()
	dialHost := o.host
	if dialHost == "" {
		dialHost = "127.0.0.1"
	}
	s := &lsrv{lopt: o, w: w, id: fmt.Sprintf("l%d-%d", w.n, port), addr: net.JoinHostPort(o.host, fmt.Sprint(port)), dial: net.JoinHostPort(dialHost, fmt.Sprint(port)), done: make(chan error, 1)}
	lo := rdns.ListenOptions{AllowedNet: o.nets}
	tc, err := rdns.TLSServerConfig(w.caF, w.crtF, w.keyF, o.mutual)
	if err != nil {
		panic(err)
	}
	switch o.kind {
	case "udp", "udp4", "udp6", "tcp", "tcp4", "tcp6":
		s.l = rdns.NewDNSListener(s.id, s.addr, o.kind, lo, r)
	case "dot":
		s.l = rdns.NewDoTListener(s.id, s.addr, "", rdns.DoTListenerOptions{TLSConfig: tc, ListenOptions: lo}, r)
	case "dtls":
		dc, err := rdns.DTLSServerConfig(w.caF, w.crtF, w.keyF, o.mutual)
		if err != nil {
			panic(err)
		}
		s.l = rdns.NewDTLSListener(s.id, s.addr, rdns.DTLSListenerOptions{DTLSConfig: dc, ListenOptions: lo}, r)
	case "doh", "doh-plain", "doh3":
		d := rdns.DoHListenerOptions{TLSConfig: tc, ListenOptions: lo, HTTPProxyNet: o.proxy}
		if o.kind == "doh-plain" {
			d.NoTLS, d.TLSConfig = true, nil
		}
		if o.kind == "doh3" {
			d.Transport = "quic"
		}
		s.l, err = rdns.NewDoHListener(s.id, s.addr, d, r)
	case "doq":
		s.l = rdns.NewQUICListener(s.id, s.addr, rdns.DoQListenerOptions{TLSConfig: tc, ListenOptions: lo}, r)
	case "odoh", "odoh-doh":
		s.l, err = rdns.NewODoHListener(s.id, s.addr, rdns.ODoHListenerOptions{TLSConfig: tc, KeySeed: odohSeed, AllowDoH: o.kind == "odoh-doh", ListenOptions: lo}, r)
	default:
		panic(o.kind)
	}
	if err != nil {
		panic(err)
	}
	go func() { s.done <- s.l.Start() }()
	for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(2 * time.Millisecond) {
		select {
		case <-s.done: // the port was taken meanwhile
			return nil
		default:
		}
		if s.datagram() {
			if c, err := net.ListenPacket("udp", s.addr); err == nil {
				c.Close()
				continue
			}
			time.Sleep(5 * time.Millisecond)
			return s
		}
		if c, err := net.Dial("tcp", s.dial); err == nil {
			c.Close()
			return s
		}
	}
	panic("listener did not start: " + o.kind)
}

func (s *lsrv) stop() {
	go s.l.Stop()
	select {
	case <-s.done:
	case <-time.After(2 * time.Second):
	}
}

// ---------------------------------------------------------------- clients

type lclient struct {
	s    *lsrv
	src  net.IP
	sni  string
	cert string // none, good, bad, badself
	prot string // HTTP version to use
}

func (c *lclient) tlsConfig() *tls.Config {
	tc := &tls.Config{RootCAs: c.s.w.ca.pool, ServerName: c.sni}
	var crt *tls.Certificate
	switch c.cert {
	case "good":
		x := c.s.w.ca.issue()
		crt = &x
	case "bad":
		x := c.s.w.other.issue()
		crt = &x
	}
	if crt != nil {
		tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return crt, nil }
	}
	return tc
}

func (c *lclient) may() bool {
	may := len(c.s.nets) == 0
	for _, n := range c.s.nets {
		may = may || n.Contains(c.src)
	}
	return may && (!c.s.mutual || c.cert == "good")
}

func (c *lclient) dialTCP(ctx context.Context) (net.Conn, error) {
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: c.src}, Timeout: lwait}
	return d.DialContext(ctx, "tcp", c.s.dial)
}

func (c *lclient) udpConn() *net.UDPConn {
	u, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.src})
	if err != nil {
		panic(err)
	}
	return u
}

func (c *lclient) raddr() *net.UDPAddr {
	a, err := net.ResolveUDPAddr("udp", c.s.dial)
	if err != nil {
		panic(err)
	}
	return a
}

// pconn is a connection on which replies come in any order.
type pconn struct {
	write func(b []byte) error
	read  func() ([]byte, error) // one message
	close func()
}

var errDial = errors.New("no connection")

func (c *lclient) pipe() (*pconn, error) {
	stream := func(n net.Conn, whole bool) *pconn {
		var r io.Reader = n
		if whole {
			r = &wholeReader{n: n}
		}
		return &pconn{write: func(b []byte) error {
			n.SetWriteDeadline(time.Now().Add(lwait))
			_, err := n.Write(frame(b))
			return err
		}, close: func() { n.Close() }, read: func() ([]byte, error) {
			var h [2]byte
			if _, err := io.ReadFull(r, h[:]); err != nil {
				return nil, err
			}
			b := make([]byte, binary.BigEndian.Uint16(h[:]))
			_, err := io.ReadFull(r, b)
			return b, err
		}}
	}
	switch c.s.class() {
	case "udp":
		u := c.udpConn()
		to := c.raddr()
		return &pconn{write: func(b []byte) error { _, err := u.WriteTo(b, to); return err }, close: func() { u.Close() }, read: func() ([]byte, error) {
			b := make([]byte, 65536)
			n, _, err := u.ReadFrom(b)
			return b[:n], err
		}}, nil
	case "tcp":
		n, err := c.dialTCP(context.Background())
		if err != nil {
			return nil, errDial
		}
		return stream(n, false), nil
	case "dot":
		n, err := c.dialTCP(context.Background())
		if err != nil {
			return nil, errDial
		}
		t := tls.Client(n, c.tlsConfig())
		ctx, cancel := context.WithTimeout(context.Background(), lwait)
		defer cancel()
		if err := t.HandshakeContext(ctx); err != nil {
			n.Close()
			return nil, errDial
		}
		return stream(t, false), nil
	case "dtls":
		dc := &dtls.Config{RootCAs: c.s.w.ca.pool, ServerName: "localhost"}
		switch c.cert {
		case "good":
			dc.Certificates = []tls.Certificate{c.s.w.ca.issue()}
		case "bad":
			dc.Certificates = []tls.Certificate{c.s.w.other.issue()}
		}
		u := c.udpConn()
		d, err := dtls.Client(u, c.raddr(), dc)
		if err != nil {
			u.Close()
			return nil, errDial
		}
		ctx, cancel := context.WithTimeout(context.Background(), lwait)
		defer cancel()
		if err := d.HandshakeContext(ctx); err != nil {
			u.Close()
			return nil, errDial
		}
		p := stream(d, true)
		p.close = func() { d.Close(); u.Close() }
		return p, nil
	}
	panic(c.s.kind)
}

// wholeReader reads from a connection that wants to deliver whole packets.
type wholeReader struct {
	n   net.Conn
	buf []byte
}

func (w *wholeReader) Read(p []byte) (int, error) {
	if len(w.buf) == 0 {
		b := make([]byte, 1<<16)
		n, err := w.n.Read(b)
		if err != nil {
			return 0, err
		}
		w.buf = b[:n]
	}
	n := copy(p, w.buf)
	w.buf = w.buf[n:]
	return n, nil
}

// lreq is one request.
type lreq struct {
	i      int
	raw    []byte // the DNS message
	cls    string
	id     int
	q      *dns.Msg // if it decodes
	path   string
	method string // HTTP
	form   string // HTTP: how the message is carried
	xff    []string
	out    string
}

// eachConn has one exchange per request.
type eachConn struct {
	do    func(r *lreq) (b []byte, status int, err error) // DNS bytes, or HTTP status, or error: stream ended without reply
	close func()
}

func (c *lclient) each() *eachConn {
	if c.s.kind == "doq" {
		u := c.udpConn()
		tr := &quic.Transport{Conn: u}
		tc := c.tlsConfig()
		tc.NextProtos = []string{"doq"}
		ctx, cancel := context.WithTimeout(context.Background(), lwait)
		defer cancel()
		conn, err := tr.Dial(ctx, c.raddr(), tc, &quic.Config{})
		closeAll := func() {
			if conn != nil {
				conn.CloseWithError(0, "")
			}
			tr.Close()
			u.Close()
		}
		return &eachConn{close: closeAll, do: func(r *lreq) ([]byte, int, error) {
			if err != nil {
				return nil, 0, errDial
			}
			ctx, cancel := context.WithTimeout(context.Background(), lwait)
			defer cancel()
			st, err := conn.OpenStreamSync(ctx)
			if err != nil {
				return nil, 0, errDial
			}
			wait := lwait
			if !c.may() { // nothing has to come
				wait = 300 * time.Millisecond
			}
			st.SetDeadline(time.Now().Add(wait))
			f := frame(r.raw)
			if r.form == "short" {
				binary.BigEndian.PutUint16(f, uint16(len(r.raw)+5))
			}
			st.Write(f)
			st.Close()
			b, err := io.ReadAll(st)
			if err != nil {
				return nil, 0, err
			}
			if len(b) == 0 {
				return nil, 0, io.EOF
			}
			if len(b) < 2 || int(binary.BigEndian.Uint16(b)) != len(b)-2 {
				return []byte{}, 0, nil // badly framed: reported as an undecodable reply
			}
			return b[2:], 0, nil
		}}
	}
	var rt http.RoundTripper
	scheme, closeRT := "https://", func() {}
	if c.s.kind == "doh3" {
		u := c.udpConn()
		tr := &quic.Transport{Conn: u}
		h3 := &http3.Transport{TLSClientConfig: c.tlsConfig(), Dial: func(ctx context.Context, _ string, tc *tls.Config, qc *quic.Config) (*quic.Conn, error) {
			return tr.DialEarly(ctx, c.raddr(), tc, qc)
		}}
		rt, closeRT = h3, func() { h3.Close(); tr.Close(); u.Close() }
	} else {
		ht := &http.Transport{TLSClientConfig: c.tlsConfig(), DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return c.dialTCP(ctx) }, ForceAttemptHTTP2: c.prot == "2", TLSHandshakeTimeout: lwait}
		if c.s.kind == "doh-plain" {
			scheme = "http://"
		}
		rt, closeRT = ht, ht.CloseIdleConnections
	}
	kp, err := odoh.CreateKeyPairFromSeed(0x0020, 0x0001, 0x0001, hexBytes(odohSeed))
	if err != nil {
		panic(err)
	}
	return &eachConn{close: closeRT, do: func(r *lreq) ([]byte, int, error) {
		ctx, cancel := context.WithTimeout(context.Background(), lwait)
		defer cancel()
		url, body, method, ctype := scheme+c.s.dial+r.path, r.raw, r.method, "application/dns-message"
		var qctx *odoh.QueryContext
		if c.s.kind == "odoh" {
			method, ctype = "POST", "application/oblivious-dns-message"
			if r.method != "GET" && r.method != "POST" {
				method = r.method
			}
			pad := uint16(16)
			if r.form == "big" {
				pad = 5000
			}
			on := odoh.CreateObliviousDNSQuery(r.raw, pad)
			m, x, err := kp.Config.Contents.EncryptQuery(on)
			if err != nil {
				panic(err)
			}
			qctx, body = &x, m.Marshal()
			switch r.form {
			case "noparam":
				body = nil
			case "b64":
				body[len(body)-1] ^= 1
			case "ctype":
				ctype = "text/plain"
			}
		} else if method == "GET" {
			p := "?dns=" + base64.RawURLEncoding.EncodeToString(r.raw)
			switch r.form {
			case "noparam":
				p = "?dn=" + base64.RawURLEncoding.EncodeToString(r.raw)
			case "b64":
				p += "!"
			}
			url, body = url+p, nil
		} else if r.form == "big" {
			body = append(body[:len(body):len(body)], make([]byte, 65536-len(body)+len(r.path)*7)...)
		}
		var rd io.Reader
		if body != nil {
			rd = bytes.NewReader(body)
		}
		req, err := http.NewRequestWithContext(ctx, method, url, rd)
		if err != nil {
			panic(err)
		}
		req.Header.Set("Content-Type", ctype)
		req.Host = c.sni
		for _, x := range r.xff {
			req.Header.Add("X-Forwarded-For", x)
		}
		resp, err := rt.RoundTrip(req)
		if err != nil {
			return nil, 0, err
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		if err != nil {
			return nil, 0, err
		}
		if resp.StatusCode != 200 {
			return nil, resp.StatusCode, nil
		}
		if resp.Header.Get("Content-Type") != ctype {
			return nil, 999, nil
		}
		if qctx != nil {
			m, err := odoh.UnmarshalDNSMessage(b)
			if err != nil {
				return nil, 998, nil
			}
			res, err := qctx.OpenAnswer(m)
			if err != nil {
				return nil, 997, nil
			}
			b = res
		}
		return b, 0, nil
	}}
}

func hexBytes(s string) []byte {
	b := make([]byte, len(s)/2)
	fmt.Sscanf(s, "%x", &b)
	return b
}

// ---------------------------------------------------------------- L01

var lkinds = []string{"udp", "tcp", "dot", "dtls", "doh", "doh-plain", "doh3", "doq", "odoh", "odoh-doh", "udp4", "tcp6"}

func protoOf(s *lsrv) string {
	if s.kind == "odoh" {
		return "odoh"
	}
	return s.class()
}

// classify says what a message is to a listener, by how it decodes.
func classify(b []byte) (string, *dns.Msg) {
	q := new(dns.Msg)
	if q.Unpack(b) != nil {
		return "bad", nil
	}
	if len(q.Question) == 0 {
		return "noq", q
	}
	if q.Response || q.Opcode != 0 || len(q.Question) != 1 || len(q.Answer)+len(q.Ns) > 0 || len(q.Extra) > 2 {
		return "odd", q
	}
	// The library is lenient about counts that promise more than there is
	for k, n := range []int{len(q.Question), len(q.Answer), len(q.Ns), len(q.Extra)} {
		if int(binary.BigEndian.Uint16(b[4+2*k:])) != n {
			return "odd", q
		}
	}
	if o := q.IsEdns0(); o != nil {
		for _, x := range o.Option {
			if x.Option() == dns.EDNS0TCPKEEPALIVE {
				return "odd", q
			}
		}
	}
	return "good", q
}

var ltoken int

func lname(r *rand.Rand) string {
	ltoken++
	return randCase(r, fmt.Sprintf("q%d-%06x.s%d.%s.", ltoken, r.Intn(1<<24), seed, []string{"example", "a.b.test"}[r.Intn(2)]))
}

// makeReq makes request i of a connection and tells the resolver what to do with it.
func makeReq(r *rand.Rand, s *lsrv, res *lresolver, log *evlog, i int, plain bool) *lreq {
	q := new(dns.Msg)
	name := lname(r)
	q.SetQuestion(name, []uint16{1, 28, 16, 65}[r.Intn(4)])
	q.Id = uint16(i*1000 + r.Intn(1000))
	if s.kind == "doq" && r.Intn(2) == 0 {
		q.Id = 0
	}
	q.RecursionDesired, q.CheckingDisabled = r.Intn(2) == 0, r.Intn(3) == 0
	if r.Intn(2) == 0 {
		q.SetEdns0(uint16(1232+r.Intn(3000)), r.Intn(2) == 0)
		if o := q.IsEdns0(); r.Intn(3) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0102030405060708"})
		}
	}
	q0 := q.Copy()
	x := r.Intn(20)
	if plain {
		x = 19
	}
	switch x {
	case 0:
		q.Question = nil
	case 1:
		q.Opcode = []int{1, 2, 4, 5, 6}[r.Intn(5)]
	case 2:
		q.Question = append(q.Question, dns.Question{Name: "second.", Qtype: 1, Qclass: 1})
	case 3:
		q.Response = true
	}
	raw, err := q.Pack()
	if err != nil {
		panic(err)
	}
	switch x {
	case 4:
		raw = raw[:r.Intn(len(raw))]
	case 5:
		raw[12+r.Intn(len(raw)-12)] ^= byte(1 + r.Intn(255))
	case 6:
		raw[4+r.Intn(8)] ^= byte(1 + r.Intn(255))
	case 7:
		raw = make([]byte, r.Intn(60))
		r.Read(raw)
	}
	lr := &lreq{i: i, raw: raw, method: []string{"GET", "POST"}[r.Intn(2)], path: "/dns-query"}
	lr.cls, lr.q = classify(raw)
	if lr.q != nil && lr.q.Id != q0.Id {
		lr.cls = "odd"
	}
	if s.class() == "doh" && s.kind != "odoh-doh" {
		lr.path = []string{"/dns-query", "/", "/x/y.z", "/%41%20b"}[r.Intn(4)]
	}
	if len(raw) >= 2 {
		lr.id = int(binary.BigEndian.Uint16(raw))
	} else {
		lr.id = -1
	}
	if !plain && lr.cls == "good" && r.Intn(8) == 0 {
		switch s.class() {
		case "doh", "odoh":
			lr.cls = "http"
			lr.form = []string{"noparam", "b64", "big", "method"}[r.Intn(4)]
			switch lr.form {
			case "noparam", "b64":
				lr.method = "GET"
			case "big":
				lr.method = "POST"
			case "method":
				lr.method = []string{"PUT", "DELETE", "HEAD", "OPTIONS"}[r.Intn(4)]
			}
			if s.kind == "odoh" && r.Intn(4) == 0 {
				lr.form, lr.method = "ctype", "POST"
			}
		case "doq":
			lr.form, lr.cls = "short", "bad"
		}
	}
	if lr.q != nil && len(lr.q.Question) > 0 {
		sent := lr.q.Copy()
		c := &lcase{log: log, i: i, sent: sent.String(), out: []string{"ans", "ans", "ans", "ans", "err", "nil"}[r.Intn(6)]}
		if plain {
			c.out = "ans"
		}
		if s.class() == "tcp" || s.kind == "dot" || s.kind == "dtls" {
			if c.out == "nil" && r.Intn(2) == 0 {
				c.out = "ans"
			}
		}
		if r.Intn(2) == 0 {
			c.delay = time.Duration(r.Intn(15)) * time.Millisecond
		}
		a := new(dns.Msg)
		a.SetReply(lr.q)
		a.Rcode = []int{0, 0, 0, 3, 5, 2}[r.Intn(6)]
		a.Authoritative, a.RecursionAvailable, a.AuthenticatedData = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		for k := r.Intn(4); k > 0; k-- {
			a.Answer = append(a.Answer, rr(fmt.Sprintf("%s %d IN A 10.0.%d.%d", name, r.Intn(999), r.Intn(256), r.Intn(256))))
		}
		if r.Intn(3) == 0 {
			a.Ns = append(a.Ns, rr("zone. 10 IN SOA ns. host. 1 2 3 4 5"))
		}
		if lr.q.IsEdns0() != nil && r.Intn(2) == 0 {
			a.SetEdns0(1232, false)
		}
		c.ans = a
		lr.out = c.out
		res.put(lr.q.Question[0].Name, c)
	}
	return lr
}

func (l *evlog) count(e, out string) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := 0
	for _, x := range l.ev {
		if x["e"] == e && x["out"] == out {
			n++
		}
	}
	return n
}

// recvEv describes a reply to request rq.
func recvEv(rq *lreq, b []byte) J {
	m := new(dns.Msg)
	if err := m.Unpack(b); err != nil {
		return J{"e": "recv", "i": rq.i, "k": "dns", "id": false, "q": false, "rc": -1, "txt": "undecodable", "nrr": 0, "http": 0}
	}
	qok := rq.q != nil && len(m.Question) == len(rq.q.Question)
	for k := range m.Question {
		qok = qok && m.Question[k] == rq.q.Question[k]
	}
	return J{"e": "recv", "i": rq.i, "k": "dns", "id": int(m.Id) == rq.id && m.Response, "q": qok, "rc": m.Rcode, "txt": replyText(m), "nrr": len(m.Answer) + len(m.Ns), "http": 0}
}

// runPipe sends requests on one connection and watches what comes back.
func runPipe(r *rand.Rand, c *lclient, log *evlog, reqs []*lreq) {
	p, err := c.pipe()
	if err != nil {
		log.add(J{"e": "closed", "i": 0})
		return
	}
	byID := map[int]*lreq{}
	want := 0
	may := c.may()
	silent := 0
	dropped := false
	for _, q := range reqs {
		byID[q.id] = q
		if q.cls == "good" && q.out == "nil" {
			silent++
		}
		if q.cls == "good" && (q.out != "nil" || !may) {
			want++
		} else if c.s.class() != "udp" && q.out == "nil" && may {
			dropped = true
		}
	}
	var mu sync.Mutex
	got := 0
	closed := make(chan bool)
	progress := make(chan bool, 1000)
	stopping := false
	go func() {
		defer close(closed)
		for {
			b, err := p.read()
			mu.Lock()
			if stopping {
				mu.Unlock()
				return
			}
			if err != nil {
				log.add(J{"e": "closed", "i": 0})
				mu.Unlock()
				return
			}
			rq := &lreq{id: -2}
			if len(b) >= 2 {
				if x := byID[int(binary.BigEndian.Uint16(b))]; x != nil {
					rq = x
				}
			}
			log.add(recvEv(rq, b))
			if rq.cls == "good" {
				got++
			}
			mu.Unlock()
			progress <- true
		}
	}()
	for _, q := range reqs {
		log.add(J{"e": "send", "i": q.i, "cls": q.cls, "path": q.path})
		if p.write(q.raw) != nil {
			break
		}
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(6)) * time.Millisecond)
		}
	}
	deadline := time.After(lwait)
loop:
	for {
		mu.Lock()
		enough := got >= want && !dropped
		mu.Unlock()
		if enough {
			break
		}
		select {
		case <-progress:
		case <-closed:
			break loop
		case <-deadline:
			break loop
		}
	}
	// queries that get no reply: until the resolver is done with them
	for t0 := time.Now(); may && c.s.class() == "udp" && time.Since(t0) < lwait && log.count("ret", "nil") < silent; {
		time.Sleep(time.Millisecond)
	}
	select { // anything more?
	case <-closed:
	case <-time.After(time.Duration(10+r.Intn(30)) * time.Millisecond):
	}
	mu.Lock()
	stopping = true
	log.add(J{"e": "fin"})
	mu.Unlock()
	p.close()
	<-closed
}

func runEach(r *rand.Rand, c *lclient, log *evlog, reqs []*lreq) {
	e := c.each()
	var wg sync.WaitGroup
	for _, q := range reqs {
		log.add(J{"e": "send", "i": q.i, "cls": q.cls, "path": q.path})
	}
	for _, q := range reqs {
		wg.Add(1)
		q := q
		go func() {
			defer wg.Done()
			if q.q != nil && q.path != "" {
				if i := strings.IndexByte(q.path, '%'); i >= 0 {
					q.path = "/%41%20b"
				}
			}
			b, st, err := e.do(q)
			switch {
			case err == errDial && c.s.kind == "doq", errors.Is(err, os.ErrDeadlineExceeded):
			case err != nil:
				log.add(J{"e": "closed", "i": q.i})
			case st != 0:
				log.add(J{"e": "recv", "i": q.i, "k": "http", "id": false, "q": false, "rc": -1, "txt": "", "nrr": 0, "http": st})
			default:
				log.add(recvEv(q, b))
			}
		}()
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(4)) * time.Millisecond)
		}
	}
	wg.Wait()
	time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
	log.add(J{"e": "fin"})
	e.close()
}

func decodedPath(p string) string {
	if p == "/%41%20b" {
		return "/A b"
	}
	return p
}

func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}

func TestListeners(t *testing.T) {
	w := newLWorld()
	defer os.RemoveAll(w.dir)
	n := envInt("VERIF_N", 20)
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for ki, kind := range lkinds {
		r := newRand(int64(9000 + ki))
		for rep := 0; rep < envInt("VERIF_LISTENERS", 2); rep++ {
			host := []string{"127.0.0.1", "127.0.0.1", ""}[r.Intn(3)]
			if kind == "tcp6" || r.Intn(6) == 0 && kind != "udp4" {
				host = "::1"
			}
			if kind == "dtls" && host == "" {
				host = "127.0.0.1"
			}
			var nets []*net.IPNet
			if r.Intn(4) == 0 {
				nets = []*net.IPNet{cidr([]string{"127.0.0.0/24", "10.0.0.0/8", "::1/128"}[r.Intn(3)])}
			}
			t0 := time.Now()
			res := newLResolver()
			s := w.start(lopt{kind: kind, host: host, nets: nets}, res)
			netsJ := A{}
			for _, x := range nets {
				netsJ = append(netsJ, netJ(x))
			}
			conns := func(k int, plain bool) {
				var cw sync.WaitGroup
				for ; k > 0; k-- {
					c := &lclient{s: s, src: net.IP{127, 0, byte(r.Intn(2)), byte(1 + r.Intn(200))}, sni: []string{"dns.example", "other.example"}[r.Intn(2)], cert: "none", prot: fmt.Sprint(1 + r.Intn(2))}
					if host == "::1" {
						c.src = net.IPv6loopback
					}
					log := &evlog{}
					var reqs []*lreq
					cnt := 1 + r.Intn(6)
					if plain {
						cnt = 2
					}
					for i := 1; i <= cnt; i++ {
						reqs = append(reqs, makeReq(r, s, res, log, i, plain))
					}
					sni := c.sni
					if cl := s.class(); cl == "udp" || cl == "tcp" || cl == "dtls" || kind == "doh-plain" {
						sni = "-"
					}
					for _, q := range reqs {
						if q.cls != "good" && q.cls != "http" && (s.class() == "tcp" || s.kind == "dot" || s.kind == "dtls") {
							q.out = ""
						}
					}
					cr := rand.New(rand.NewSource(r.Int63()))
					wg.Add(1)
					cw.Add(1)
					sem <- true
					go func() {
						defer func() { <-sem; cw.Done(); wg.Done() }()
						switch s.class() {
						case "udp", "tcp", "dot", "dtls":
							runPipe(cr, c, log, reqs)
						default:
							runEach(cr, c, log, reqs)
						}
						ev := log.take()
						for _, e := range ev {
							if e["e"] == "send" {
								e["path"] = decodedPath(e["path"].(string))
							}
						}
						emit(J{"cfg": J{"kind": s.class(), "listener": kind, "host": host, "src": shortIP(c.src), "nets": netsJ, "id": s.id, "addr": s.addr, "sni": sni, "proto": protoOf(s)}, "ev": ev})
					}()
				}
				cw.Wait()
			}
			conns(n, false)
			conns(1, true) // it still serves
			res.mu.Lock()
			if res.stray > 0 {
				emit(J{"cfg": J{"kind": s.class(), "listener": kind, "host": host, "src": A{}, "nets": netsJ, "id": s.id, "addr": s.addr, "sni": "-", "proto": protoOf(s)},
					"ev": A{J{"e": "call", "i": 0, "src": A{}, "proto": "", "lid": "", "laddr": "", "sni": "", "path": "", "qok": false}}})
			}
			res.mu.Unlock()
			if os.Getenv("VERIF_VERBOSE") != "" {
				fmt.Fprintln(os.Stderr, kind, rep, time.Since(t0))
			}
			s.stop()
		}
	}
	wg.Wait()
}

// ---------------------------------------------------------------- L02

func randNet(r *rand.Rand) *net.IPNet {
	return cidr([]string{"127.0.0.0/8", "127.0.0.0/24", "127.0.1.0/24", "127.0.0.16/28", "127.0.0.17/32", "10.0.0.0/8", "192.0.2.0/24", "0.0.0.0/0", "::/0", "::1/128", "::/1", "2001:db8::/32", "127.0.0.128/25", "0.0.0.0/1", "128.0.0.0/1", "169.254.0.0/16", "fe80::/10", "8000::/1"}[r.Intn(18)])
}

// xffEntry makes one entry of a forwarded-for list.
func xffEntry(r *rand.Rand) (string, J) {
	type e struct {
		t  string
		ip string
	}
	es := []e{{"10.1.2.3", "10.1.2.3"}, {"192.0.2.7", "192.0.2.7"}, {"127.0.0.17", "127.0.0.17"}, {"127.0.1.9", "127.0.1.9"}, {"::1", "::1"}, {"2001:db8::5", "2001:db8::5"},
		{"::ffff:10.1.2.3", "10.1.2.3"}, {"::ffff:127.0.0.1", "127.0.0.1"}, {"10.1.2.3:80", ""}, {"[2001:db8::5]", ""}, {"unknown", ""}, {"", ""}, {"010.1.2.3", ""}, {"10.1.2", ""}, {"10.1.2.3.", ""},
		{"192.0.2.300", ""}, {"10.1.2.3/8", ""}, {"_hidden", ""}, {"0.0.0.0", "0.0.0.0"}, {"10.255.255.255", "10.255.255.255"}, {"::", "::"}, {"10.1.2.3 192.0.2.7", ""}, {"for=10.1.2.3", ""}, {"fe80::1%eth0", ""},
		{"169.254.2.3", "169.254.2.3"}, {"fe80::1", "fe80::1"}, {"224.0.0.1", "224.0.0.1"}, {"ff02::1", "ff02::1"}, {"255.255.255.255", "255.255.255.255"}, {"100.64.1.1", "100.64.1.1"}, {"172.16.1.1", "172.16.1.1"}, {"fd00::1", "fd00::1"},
		{"126.255.255.255", "126.255.255.255"}, {"128.0.0.0", "128.0.0.0"}, {"127.255.255.255", "127.255.255.255"}, {"127.0.0.0", "127.0.0.0"}, {"::2", "::2"}}
	x := es[r.Intn(len(es))]
	j := J{"ok": x.ip != "", "ip": A{}}
	if x.ip != "" {
		j["ip"] = shortIP(net.ParseIP(x.ip))
	}
	return x.t, j
}

func TestAccess(t *testing.T) {
	w := newLWorld()
	defer os.RemoveAll(w.dir)
	n := envInt("VERIF_N", 4)
	for ki, kind := range []string{"udp", "tcp", "dot", "dtls", "doh", "doh-plain", "doh3", "doq", "odoh", "odoh-doh"} {
		r := newRand(int64(9500 + ki))
		for rep := 0; rep < n; rep++ {
			host := []string{"127.0.0.1", "127.0.0.1", "", "::1"}[r.Intn(4)]
			if kind == "dtls" && host == "" {
				host = "127.0.0.1"
			}
			o := lopt{kind: kind, host: host}
			nets, proxy := A{}, A{}
			for k := r.Intn(4); k > 0; k-- {
				x := randNet(r)
				o.nets = append(o.nets, x)
				nets = append(nets, netJ(x))
			}
			if strings.HasPrefix(kind, "doh") && r.Intn(4) > 0 {
				o.proxy = randNet(r)
				proxy = append(proxy, netJ(o.proxy))
			}
			if kind != "udp" && kind != "tcp" && kind != "doh-plain" {
				o.mutual = r.Intn(3) == 0
			}
			res := newLResolver()
			s := w.start(o, res)
			var wg sync.WaitGroup
			sem := make(chan bool, 8)
			for k := envInt("VERIF_CLIENTS", 10); k > 0; k-- {
				c := &lclient{s: s, src: net.IP{127, 0, byte(r.Intn(2)), byte(1 + r.Intn(40))}, sni: "dns.example", prot: fmt.Sprint(1 + r.Intn(2)), cert: []string{"none", "good", "bad"}[r.Intn(3)]}
				if host == "::1" {
					c.src = net.IPv6loopback
				}
				if r.Intn(6) == 0 && host != "::1" {
					c.src = net.IP{127, 0, 0, 17}
				}
				q := new(dns.Msg)
				name := lname(r)
				q.SetQuestion(name, 1)
				raw, _ := q.Pack()
				lc := &lcase{out: "ans", ans: reply(q, 0, name+" 60 IN A 1.2.3.4")}
				res.put(name, lc)
				lr := &lreq{i: 1, raw: raw, cls: "good", id: int(q.Id), q: q, path: "/dns-query", method: []string{"GET", "POST"}[r.Intn(2)]}
				xff := A{}
				if kind != "udp" && kind != "tcp" && kind != "dot" && kind != "dtls" && kind != "doq" {
					for lines := r.Intn(3); lines > 0; lines-- {
						var parts []string
						for e := 1 + r.Intn(3); e > 0; e-- {
							t, j := xffEntry(r)
							parts = append(parts, strings.Repeat(" ", r.Intn(2))+t+strings.Repeat(" ", r.Intn(2)))
							xff = append(xff, j)
						}
						lr.xff = append(lr.xff, strings.Join(parts, ","))
					}
				}
				wg.Add(1)
				sem <- true
				go func() {
					defer func() { <-sem; wg.Done() }()
					got := access(c, lr)
					lc.mu.Lock()
					calls, seen := lc.calls, lc.seen
					lc.mu.Unlock()
					emit(J{"listener": kind, "kind": s.class(), "nets": nets, "proxy": proxy, "mutual": o.mutual, "cert": c.cert, "src": shortIP(c.src), "xff": xff, "lines": strings.Join(lr.xff, " | "),
						"calls": calls, "seen": shortIP(seen), "got": got})
				}()
			}
			wg.Wait()
			s.stop()
		}
	}
}

// access sends one request and says what came back: answer, refused, none, other.
func access(c *lclient, lr *lreq) string {
	var b []byte
	switch c.s.class() {
	case "udp", "tcp", "dot", "dtls":
		p, err := c.pipe()
		if err != nil {
			return "none"
		}
		defer p.close()
		got := make(chan []byte, 1)
		go func() {
			b, err := p.read()
			if err != nil {
				b = nil
			}
			got <- b
		}()
		if p.write(lr.raw) != nil {
			return "none"
		}
		select {
		case b = <-got:
		case <-time.After(lwait):
		}
	default:
		e := c.each()
		defer e.close()
		x, st, err := e.do(lr)
		if err != nil {
			return "none"
		}
		if st == 403 || st == 401 {
			return "refused"
		}
		if st != 0 {
			return fmt.Sprint("status ", st)
		}
		b = x
	}
	if b == nil {
		return "none"
	}
	m := new(dns.Msg)
	if m.Unpack(b) != nil || int(m.Id) != lr.id {
		return "other"
	}
	switch {
	case m.Rcode == 0 && len(m.Answer) == 1:
		return "answer"
	case m.Rcode == dns.RcodeRefused && len(m.Answer) == 0:
		return "refused"
	}
	return "other"
}

// ---------------------------------------------------------------- L03

func splitOpt(m *dns.Msg) (opt, others A, pad int) {
	opt, others, pad = A{}, A{}, -1
	o := m.IsEdns0()
	if o == nil {
		return
	}
	for _, x := range o.Option {
		if p, ok := x.(*dns.EDNS0_PADDING); ok {
			pad = max(pad, 0) + len(p.Padding)
			continue
		}
		others = append(others, fmt.Sprintf("%d %s", x.Option(), x.String()))
	}
	return A{J{"size": int(o.UDPSize()), "do": o.Do(), "opts": others}}, others, pad
}

func section(rrs []dns.RR) A {
	r := A{}
	for _, x := range rrs {
		if _, ok := x.(*dns.OPT); !ok {
			r = append(r, int(crc32.ChecksumIEEE([]byte(x.String()))>>1))
		}
	}
	return r
}

func shapeJ(m *dns.Msg) J {
	opt, others, pad := splitOpt(m)
	head := fmt.Sprint(m.Opcode, m.Rcode, m.Response, m.Authoritative, m.RecursionDesired, m.RecursionAvailable, m.Zero, m.AuthenticatedData, m.CheckingDisabled, m.Question)
	return J{"k": "msg", "head": head, "tc": m.Truncated, "an": section(m.Answer), "ns": section(m.Ns), "ex": section(m.Extra), "opt": opt, "others": others, "pad": pad, "id": true, "size": 0}
}

// bigRR makes records that compress well or not at all.
func bigRR(r *rand.Rand, name string) dns.RR {
	switch r.Intn(5) {
	case 0:
		return rr(fmt.Sprintf("%s %d IN MX %d mail.%s", name, r.Intn(999), r.Intn(9), name))
	case 1:
		return rr(fmt.Sprintf("n%d.%s %d IN NS ns%d.%s", r.Intn(999), name, r.Intn(999), r.Intn(99), name))
	case 2:
		return rr(fmt.Sprintf("%s %d IN TXT \"%s\"", name, r.Intn(999), strings.Repeat("x", r.Intn(250))))
	}
	return rr(fmt.Sprintf("%s %d IN A 10.%d.%d.%d", name, r.Intn(999), r.Intn(256), r.Intn(256), r.Intn(256)))
}

func packLen(m *dns.Msg, compress bool) int {
	m = m.Copy()
	m.Compress = compress
	b, err := m.Pack()
	if err != nil {
		return 1 << 20
	}
	return len(b)
}

func noPad(m *dns.Msg) *dns.Msg {
	m = m.Copy()
	if o := m.IsEdns0(); o != nil {
		var k []dns.EDNS0
		for _, x := range o.Option {
			if x.Option() != dns.EDNS0PADDING {
				k = append(k, x)
			}
		}
		o.Option = k
	}
	return m
}

func TestReplies(t *testing.T) {
	w := newLWorld()
	defer os.RemoveAll(w.dir)
	n := envInt("VERIF_N", 60)
	for ki, kind := range []string{"udp", "udp4", "udp6", "tcp", "dot", "dtls", "doh", "doh3", "doq", "odoh"} {
		r := newRand(int64(9800 + ki))
		res := newLResolver()
		host := "127.0.0.1"
		if kind == "udp6" {
			host = "::1"
		}
		s := w.start(lopt{kind: kind, host: host}, res)
		var wg sync.WaitGroup
		sem := make(chan bool, 6)
		for k := 0; k < n; k++ {
			q := new(dns.Msg)
			name := lname(r)
			if r.Intn(3) == 0 {
				name = strings.TrimSuffix(name, ".") + strings.Repeat(".abcdefghijklmnopqrst", 1+r.Intn(8)) + "."
			}
			q.SetQuestion(name, 1)
			q.CheckingDisabled = r.Intn(2) == 0
			adv := 0
			if r.Intn(5) > 0 {
				adv = []int{512, 512, 1232, 1232, 4096, 936, 937, 935, 1404, 600, 300, 0, 513, 8192, 65535, 468, 2000}[r.Intn(17)]
				if r.Intn(4) == 0 {
					adv = 400 + r.Intn(3000)
				}
				q.SetEdns0(uint16(adv), r.Intn(2) == 0)
				if r.Intn(3) == 0 {
					q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_PADDING{Padding: make([]byte, r.Intn(50))})
				}
			}
			a := new(dns.Msg)
			a.SetReply(q)
			a.Rcode = []int{0, 0, 0, 3, 2}[r.Intn(5)]
			a.Authoritative, a.RecursionAvailable, a.AuthenticatedData, a.CheckingDisabled = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
			a.Truncated = r.Intn(12) == 0
			if r.Intn(2) == 0 {
				a.SetEdns0(uint16(512+r.Intn(4000)), r.Intn(2) == 0)
				o := a.IsEdns0()
				if r.Intn(2) == 0 {
					o.Option = append(o.Option, &dns.EDNS0_PADDING{Padding: make([]byte, r.Intn(700))})
				}
				if r.Intn(3) == 0 {
					o.Option = append(o.Option, &dns.EDNS0_EDE{InfoCode: 15, ExtraText: strings.Repeat("e", r.Intn(60))})
				}
				if r.Intn(4) == 0 {
					o.Option = append(o.Option, &dns.EDNS0_PADDING{Padding: make([]byte, r.Intn(9))})
				}
				if r.Intn(6) == 0 {
					a.Rcode = 16 + r.Intn(8)
				}
			}
			add := func() {
				switch r.Intn(6) {
				case 0:
					a.Ns = append(a.Ns, bigRR(r, name))
				case 1:
					x := bigRR(r, name)
					a.Extra = append(a.Extra, x)
					if r.Intn(2) == 0 { // in front of the EDNS0 record
						a.Extra[0], a.Extra[len(a.Extra)-1] = a.Extra[len(a.Extra)-1], a.Extra[0]
					}
				default:
					a.Answer = append(a.Answer, bigRR(r, name))
				}
			}
			for j := r.Intn(4); j > 0; j-- {
				add()
			}
			// aim at a size: multiples of the block, the limit, or big
			target := []int{adv, adv, 468, 936, 1404, 1872, 512, r.Intn(3000), 4096, 0}[r.Intn(10)] + r.Intn(33) - 16
			if r.Intn(12) == 0 {
				target = 10000 + r.Intn(20000)
			}
			if r.Intn(12) == 0 && kind != "udp" && kind != "udp4" && kind != "udp6" && kind != "dtls" {
				target = 60000 + r.Intn(5000)
			}
			switch kind { // what a datagram or a record can hold at all
			case "dtls":
				target = min(target, 4500)
			case "udp", "udp4", "udp6":
				target = min(target, 40000)
			}
			comp := r.Intn(2) == 0 && kind != "dtls"
			for have := packLen(noPad(a), comp); have < target-1500 && packLen(noPad(a), true) < 60000; have = packLen(noPad(a), comp) {
				for j := 0; j < 8+(target-have)/500; j++ {
					add()
				}
			}
			if d := target - packLen(noPad(a), comp) - (len(name) + 11); d > 0 && d < 60000 {
				x := &dns.RFC3597{Hdr: dns.RR_Header{Name: name, Rrtype: 65400, Class: 1, Ttl: 5}, Rdata: strings.Repeat("ab", d)}
				if comp {
					x.Rdata = strings.Repeat("ab", min(d+len(name)-1, 60000))
				}
				a.Answer = append(a.Answer, x)
			}
			padded := kind == "dot" || kind == "dtls" || kind == "doh" || kind == "doh3"
			base := noPad(a)
			full := base.Copy()
			if o := q.IsEdns0(); o != nil && padded {
				if full.IsEdns0() == nil {
					full.SetEdns0(o.UDPSize(), o.Do())
				}
				full.IsEdns0().Option = append(full.IsEdns0().Option, &dns.EDNS0_PADDING{})
			}
			if !padded && kind != "tcp" && kind != "udp" && kind != "udp4" && kind != "udp6" {
				base, full = a, a
			}
			rec := J{"listener": kind, "kind": s.class(), "edns": q.IsEdns0() != nil, "adv": adv, "a": shapeJ(a), "lo": packLen(base, true), "hi": packLen(full, true) + 8, "len": packLen(full, false) + 8}
			if !padded {
				rec["hi"] = packLen(full, true)
			}
			if rec["hi"].(int) > 65535 || kind == "odoh" && (rec["hi"].(int) > 65000 || rec["len"].(int) > 65000 && rec["len"].(int) < 65600) {
				continue
			}
			if packLen(full, false) > 65535 {
				rec["len"] = 1 << 20
			}
			res.put(name, &lcase{out: "ans", ans: a})
			raw, err := q.Pack()
			if err != nil {
				panic(err)
			}
			lr := &lreq{i: 1, raw: raw, cls: "good", id: int(q.Id), q: q, path: "/dns-query", method: []string{"GET", "POST"}[r.Intn(2)]}
			c := &lclient{s: s, src: net.IP{127, 0, 0, 1}, sni: "dns.example", prot: fmt.Sprint(1 + r.Intn(2)), cert: "none"}
			if host == "::1" {
				c.src = net.IPv6loopback
			}
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				b := exchange(c, lr)
				got := J{"k": "none", "head": "", "tc": false, "an": A{}, "ns": A{}, "ex": A{}, "opt": A{}, "others": A{}, "pad": -1, "id": false, "size": len(b)}
				m := new(dns.Msg)
				if b != nil && m.Unpack(b) == nil {
					got = shapeJ(m)
					got["id"], got["size"] = int(m.Id) == lr.id, len(b)
				}
				rec["got"] = got
				emit(rec)
			}()
		}
		wg.Wait()
		s.stop()
	}
}

// exchange sends one request and returns the DNS reply, nil if there was none.
func exchange(c *lclient, lr *lreq) []byte {
	switch c.s.class() {
	case "udp", "tcp", "dot", "dtls":
		p, err := c.pipe()
		if err != nil {
			return nil
		}
		defer p.close()
		got := make(chan []byte, 1)
		go func() {
			b, err := p.read()
			if err != nil {
				b = nil
			}
			got <- b
		}()
		if p.write(lr.raw) != nil {
			return nil
		}
		select {
		case b := <-got:
			return b
		case <-time.After(lwait):
			return nil
		}
	}
	e := c.each()
	defer e.close()
	b, st, err := e.do(lr)
	if err != nil || st != 0 {
		return nil
	}
	return b
}
