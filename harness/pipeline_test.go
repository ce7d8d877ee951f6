package zzverif

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// ---------------------------------------------------------------- scripted server

type pipeWorld struct {
	evlog
	rnd    *rand.Rand
	rmu    sync.Mutex
	t0     time.Time
	packet bool
	conns  []*pipeConn
	nk     int
	calls  map[int]*dns.Msg // what the caller asked
	seen   []uint16
	tok    int
	maxDly int
	mood   string
}

func (w *pipeWorld) now() int { return int(time.Since(w.t0) / time.Millisecond) }
func (w *pipeWorld) log(e J) {
	e["t"] = w.now()
	w.add(e)
}
func (w *pipeWorld) intn(n int) int {
	w.rmu.Lock()
	defer w.rmu.Unlock()
	return w.rnd.Intn(n)
}

type pipeConn struct {
	net.Conn // server side
	w        *pipeWorld
	k        int
	wsem     chan struct{} // a channel: waiting for it counts as idle
	smu      sync.Mutex
	gate     chan struct{} // non-nil while stalled
	closed   atomic.Bool
	half     bool
}

// clientEnd is the side given to the code under test.
type clientEnd struct {
	net.Conn
	c    *pipeConn
	once sync.Once
}

func (e *clientEnd) Close() error {
	e.once.Do(func() { e.c.w.log(J{"e": "cclose", "k": e.c.k}) })
	return e.Conn.Close()
}

type clientPacketEnd struct{ *clientEnd }

func (e clientPacketEnd) ReadFrom(p []byte) (int, net.Addr, error) {
	n, err := e.Read(p)
	return n, e.RemoteAddr(), err
}
func (e clientPacketEnd) WriteTo(p []byte, _ net.Addr) (int, error) { return e.Write(p) }

func (w *pipeWorld) Dial(string) (*dns.Conn, error) {
	w.mu.Lock()
	w.nk++
	k := w.nk
	w.mu.Unlock()
	w.log(J{"e": "dial", "k": k})
	if w.intn(4) == 0 {
		time.Sleep(time.Duration(w.intn(2500)) * time.Millisecond)
	}
	if w.intn(6) == 0 {
		w.log(J{"e": "dialed", "k": k, "ok": false})
		return nil, errors.New("connection refused")
	}
	cl, sv := net.Pipe()
	c := &pipeConn{Conn: sv, w: w, k: k, wsem: make(chan struct{}, 1)}
	w.mu.Lock()
	w.conns = append(w.conns, c)
	w.mu.Unlock()
	w.log(J{"e": "dialed", "k": k, "ok": true})
	if w.mood == "stall" && w.intn(2) == 0 {
		c.stall(true)
	}
	go c.serve()
	end := &clientEnd{Conn: cl, c: c}
	if w.packet {
		return &dns.Conn{Conn: clientPacketEnd{end}, UDPSize: 4096}, nil
	}
	return &dns.Conn{Conn: end}, nil
}

func (c *pipeConn) stall(on bool) {
	c.smu.Lock()
	defer c.smu.Unlock()
	if on == (c.gate != nil) {
		return
	}
	c.w.log(J{"e": "stall", "k": c.k, "on": on})
	if on {
		c.gate = make(chan struct{})
	} else {
		close(c.gate)
		c.gate = nil
	}
}

func (c *pipeConn) wait() {
	c.smu.Lock()
	g := c.gate
	c.smu.Unlock()
	if g != nil {
		<-g
	}
}

func (c *pipeConn) read() ([]byte, error) {
	c.wait()
	if c.w.packet {
		b := make([]byte, 4096)
		n, err := c.Read(b)
		return b[:n], err
	}
	var l [2]byte
	if _, err := io.ReadFull(c, l[:]); err != nil {
		return nil, err
	}
	c.wait()
	b := make([]byte, binary.BigEndian.Uint16(l[:]))
	_, err := io.ReadFull(c, b)
	return b, err
}

func (c *pipeConn) shut() {
	if c.closed.CompareAndSwap(false, true) {
		c.w.log(J{"e": "sclose", "k": c.k})
		c.Conn.Close()
	}
}

func callerOf(m *dns.Msg) int {
	if o := m.IsEdns0(); o != nil {
		for _, e := range o.Option {
			if l, ok := e.(*dns.EDNS0_LOCAL); ok && l.Code == 65001 && len(l.Data) == 2 {
				return int(binary.BigEndian.Uint16(l.Data))
			}
		}
	}
	return 0
}

func sameButID(a, b *dns.Msg) bool {
	a, b = a.Copy(), b.Copy()
	a.Id, b.Id = 0, 0
	x, err1 := a.Pack()
	y, err2 := b.Pack()
	return err1 == nil && err2 == nil && string(x) == string(y)
}

func qText(m *dns.Msg) string {
	if len(m.Question) != 1 {
		return fmt.Sprintf("%d questions", len(m.Question))
	}
	q := m.Question[0]
	return fmt.Sprintf("%s %d %d", strings.ToLower(q.Name), q.Qtype, q.Qclass)
}

// token identifies a message by everything but its ID.
func token(m *dns.Msg) string {
	m = m.Copy()
	m.Id = 0
	b, err := m.Pack()
	if err != nil {
		return "unpackable"
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}

func (c *pipeConn) serve() {
	w := c.w
	for {
		b, err := c.read()
		if err != nil {
			return
		}
		q := new(dns.Msg)
		if err := q.Unpack(b); err != nil {
			w.log(J{"e": "wire", "k": c.k, "c": 0, "id": 0, "same": false})
			return
		}
		n := callerOf(q)
		w.mu.Lock()
		orig := w.calls[n]
		old := append([]uint16{}, w.seen...)
		w.seen = append(w.seen, q.Id)
		w.mu.Unlock()
		w.log(J{"e": "wire", "k": c.k, "c": n, "id": int(q.Id), "same": orig != nil && sameButID(orig, q)})
		go c.act(q, old)
		if w.mood == "stall" && w.intn(4) == 0 {
			c.stall(true)
		}
	}
}

// send writes a reply; cut > 0 keeps the message decodable only up to the question.
func (c *pipeConn) send(m *dns.Msg, dec string) {
	w := c.w
	m = m.Copy()
	b, err := m.Pack()
	if err != nil {
		panic(err)
	}
	q := qText(m)
	switch dec {
	case "part", "parttc":
		if dec == "parttc" {
			b[2] |= 2
		}
		if b[2]&2 != 0 {
			dec = "parttc"
		}
		b = b[:len(b)-3]
	case "qbroken":
		b = b[:14]
		q = "broken"
	case "short":
		b = b[:w.intn(12)]
		dec = "junk"
	}
	if dec == "qbroken" {
		dec = "part"
	}
	tok := ""
	if dec == "ok" {
		d := new(dns.Msg)
		if err := d.Unpack(b); err != nil {
			panic(err)
		}
		tok = token(d)
	}
	frame := b
	if !w.packet {
		frame = append(binary.BigEndian.AppendUint16(nil, uint16(len(b))), b...)
	}
	c.wsem <- struct{}{}
	defer func() { <-c.wsem }()
	if w.packet && len(b) == 0 {
		return
	}
	w.log(J{"e": "send", "k": c.k, "id": int(m.Id), "q": q, "dec": dec, "tok": tok})
	if !w.packet && w.intn(8) == 0 { // in pieces
		n := w.intn(len(frame))
		if n > 0 {
			if _, err := c.Write(frame[:n]); err != nil {
				return
			}
		}
		frame = frame[n:]
	}
	c.Write(frame)
}

func (c *pipeConn) act(q *dns.Msg, old []uint16) {
	w := c.w
	good := func() *dns.Msg {
		w.mu.Lock()
		w.tok++
		n := w.tok
		w.mu.Unlock()
		a := reply(q, w.intn(2)*3)
		a.Answer = append(a.Answer, &dns.TXT{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeTXT, Class: 1, Ttl: 60}, Txt: []string{fmt.Sprint(n)}})
		if w.intn(3) == 0 {
			a.Ns = append(a.Ns, rr("example. 60 IN NS ns.example."))
			a.SetEdns0(1232, w.intn(2) == 0)
		}
		if w.intn(4) == 0 {
			a.Question[0].Name = strings.ToUpper(a.Question[0].Name)
		}
		if w.intn(12) == 0 {
			a.Truncated = true
		}
		return a
	}
	delay := func() {
		if w.intn(2) == 0 {
			time.Sleep(time.Duration(w.intn(w.maxDly)) * time.Millisecond)
		}
	}
	delay()
	for n := w.intn(3); n > 0; n-- { // noise
		switch w.intn(7) {
		case 0, 1: // an ID nobody asked with, or one of an earlier query
			a := good()
			if len(old) > 0 && w.intn(3) != 0 {
				a.Id = old[w.intn(len(old))]
			} else {
				a.Id = q.Id + uint16(1+w.intn(3))
			}
			c.send(a, "ok")
		case 2:
			if w.intn(3) == 0 {
				a := good()
				switch w.intn(3) {
				case 0:
					a.Question[0].Name = "x" + a.Question[0].Name
				case 1:
					a.Question[0].Qtype++
				default:
					a.Question[0].Qclass = dns.ClassCHAOS
				}
				c.send(a, "ok")
			}
		case 3:
			if w.intn(3) == 0 {
				a := good()
				a.Question = nil
				c.send(a, "ok")
			}
		case 4:
			if w.intn(2) == 0 {
				c.send(good(), []string{"part", "parttc", "qbroken"}[w.intn(3)])
			}
		case 5:
			if w.intn(8) == 0 {
				c.send(good(), "short")
			}
		case 6:
			if w.intn(6) == 0 {
				c.shut()
			}
		}
		delay()
	}
	switch w.intn(8) {
	case 0: // silence
	case 1:
		c.send(good(), "ok")
		delay()
		c.send(good(), "ok")
	case 2:
		c.send(good(), "ok")
		if w.intn(3) == 0 {
			c.shut()
		}
	default:
		c.send(good(), "ok")
	}
}

// ---------------------------------------------------------------- callers

func TestPipeline(t *testing.T) {
	n := envInt("VERIF_N", 100)
	realID := dns.Id
	stop := watchdog(10*time.Minute, "pipeline")
	defer stop()
	rnd := newRand(71)
	synctestRun(t, make(chan bool), func() {
		for i := 0; i < n; i++ {
			// a small range of IDs makes collisions and reuse common
			dns.Id = realID
			small := rnd.Intn(2) == 0
			if small {
				idr := rand.New(rand.NewSource(rnd.Int63()))
				var mu sync.Mutex
				size := 40 + rnd.Intn(80)
				dns.Id = func() uint16 {
					mu.Lock()
					defer mu.Unlock()
					return uint16(idr.Intn(size))
				}
			}
			if i%4 == 3 {
				perturb(3)
			}
			pipelineTrace(rand.New(rand.NewSource(rnd.Int63())), small)
		}
		done()
	})
}

func pipelineTrace(rnd *rand.Rand, small bool) {
	T := []int{0, 300, 1000}[rnd.Intn(3)]
	w := &pipeWorld{rnd: rand.New(rand.NewSource(rnd.Int63())), t0: time.Now(), packet: rnd.Intn(3) == 0, calls: map[int]*dns.Msg{},
		maxDly: []int{50, 500, 3000}[rnd.Intn(3)], mood: []string{"", "", "stall"}[rnd.Intn(3)]}
	p := rdns.NewPipeline("x", "addr", w, time.Duration(T)*time.Millisecond)
	if T == 0 {
		T = 2000
	}
	var wg sync.WaitGroup
	nc := 0
	begin := func() {
		nc++
		c := nc
		q := query([]string{"a.example.", "b.example.", "c.Example."}[rnd.Intn(3)], []uint16{1, 28}[rnd.Intn(2)])
		q.Id = uint16(rnd.Intn(3))
		o := &dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT}}
		o.SetUDPSize(1232)
		o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: 65001, Data: binary.BigEndian.AppendUint16(nil, uint16(c))})
		q.Extra = append(q.Extra, o)
		w.mu.Lock()
		w.calls[c] = q.Copy()
		w.mu.Unlock()
		w.log(J{"e": "begin", "c": c, "q": qText(q)})
		wg.Add(1)
		go func() {
			defer wg.Done()
			before := q.Copy()
			a, err := p.Resolve(q)
			out := J{"k": "err", "tok": "", "idok": q.Id == before.Id && sameButID(q, before)}
			if err == nil {
				out["k"] = "ans"
				if a == nil {
					out["k"] = "nil"
				} else {
					out["tok"] = token(a)
					out["idok"] = out["idok"].(bool) && a.Id == before.Id
				}
			}
			w.log(J{"e": "end", "c": c, "o": out})
		}()
	}
	idle := func() {
		synctest.Wait()
		w.log(J{"e": "idle"})
	}
	for s := 4 + rnd.Intn(10); s > 0; s-- {
		for b := []int{1, 1, 2, 6}[rnd.Intn(4)]; b > 0; b-- {
			begin()
		}
		if rnd.Intn(3) > 0 {
			idle()
		}
		switch rnd.Intn(8) {
		case 0: // past the idle time
			time.Sleep(time.Duration(9000+rnd.Intn(3000)) * time.Millisecond)
		case 1:
			time.Sleep(70 * time.Second)
		case 2:
			time.Sleep(time.Duration(T) * time.Millisecond)
		default:
			time.Sleep(time.Duration(rnd.Intn(400)) * time.Millisecond)
		}
		w.mu.Lock()
		var c *pipeConn
		if len(w.conns) > 0 {
			c = w.conns[len(w.conns)-1]
		}
		w.mu.Unlock()
		if c != nil {
			switch rnd.Intn(10) {
			case 0:
				c.shut()
			case 1:
				c.stall(false)
			}
		}
	}
	idle()
	time.Sleep(time.Duration(T+100) * time.Millisecond)
	idle()
	wg.Wait()
	// release what is left of this world
	w.mu.Lock()
	ev := w.ev
	w.ev = nil
	conns := w.conns
	w.mu.Unlock()
	emit(J{"cfg": J{"T": T, "small": small}, "ev": ev})
	for _, c := range conns {
		c.closed.Store(true)
		c.Conn.Close()
		c.smu.Lock()
		if c.gate != nil {
			close(c.gate)
			c.gate = nil
		}
		c.smu.Unlock()
	}
	time.Sleep(10 * time.Second)
}

// TestPipelineStress: many callers in real time, run under the race detector.
func TestPipelineStress(t *testing.T) {
	stop := watchdog(5*time.Minute, "pipeline stress")
	defer stop()
	rnd := newRand(72)
	w := &stressDialer{rnd: rnd}
	p := rdns.NewPipeline("s", "addr", w, 300*time.Millisecond)
	end := time.Now().Add(time.Duration(envInt("VERIF_MS", 500)) * time.Millisecond)
	var ok, failed, bad, late atomic.Int64
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; time.Now().Before(end); i++ {
				q := query(fmt.Sprintf("n%d-%d.example.", g, i), 16)
				q.Id = uint16(i)
				t0 := time.Now()
				a, err := p.Resolve(q)
				if time.Since(t0) > 60*time.Second {
					late.Add(1)
				}
				if err != nil {
					failed.Add(1)
					continue
				}
				ok.Add(1)
				if a.Id != uint16(i) || len(a.Answer) != 1 || a.Answer[0].(*dns.TXT).Txt[0] != q.Question[0].Name {
					bad.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	emit(J{"ok": ok.Load(), "failed": failed.Load(), "bad": bad.Load(), "late": late.Load(), "dials": w.n.Load()})
}

type stressDialer struct {
	mu  sync.Mutex
	rnd *rand.Rand
	n   atomic.Int64
}

func (w *stressDialer) Dial(string) (*dns.Conn, error) {
	w.n.Add(1)
	w.mu.Lock()
	x := w.rnd.Intn(5)
	life := 1 + w.rnd.Intn(200)
	w.mu.Unlock()
	if x == 0 {
		return nil, errors.New("refused")
	}
	cl, sv := net.Pipe()
	go func() {
		s := &dns.Conn{Conn: sv}
		var mu sync.Mutex
		for ; life > 0; life-- {
			q, err := s.ReadMsg()
			if err != nil {
				return
			}
			go func() {
				mu.Lock()
				defer mu.Unlock()
				a := reply(q, 0)
				a.Answer = append(a.Answer, &dns.TXT{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: 16, Class: 1}, Txt: []string{q.Question[0].Name}})
				s.WriteMsg(a)
			}()
		}
		sv.Close()
	}()
	return &dns.Conn{Conn: cl}, nil
}
