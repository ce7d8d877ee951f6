// Package zzverif drives the exported API of routedns and records what it observes.
package zzverif

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

type J = map[string]any
type A = []any

var (
	outMu  sync.Mutex
	outW   *bufio.Writer
	outF   *os.File
	seed   int64
	thor   bool
	dataD  string
	scrtch string
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_OUT") == "" && os.Getenv("VERIF_CHILD") == "" {
		fmt.Fprintln(os.Stderr, "VERIF_OUT not set")
		os.Exit(3)
	}
	seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	thor = os.Getenv("VERIF_TIER") == "thorough"
	dataD = os.Getenv("VERIF_DATA")
	scrtch = os.Getenv("VERIF_SCRATCH")
	if p := os.Getenv("VERIF_OUT"); p != "" {
		f, err := os.Create(p)
		if err != nil {
			panic(err)
		}
		outF = f
		outW = bufio.NewWriterSize(f, 1<<20)
	}
	rdns.Log = slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 10}))
	rc := m.Run()
	flush()
	os.Exit(rc)
}

// emit writes one record to the output file.
func emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	outMu.Lock()
	outW.Write(b)
	outW.WriteByte('\n')
	outMu.Unlock()
}

func flush() {
	outMu.Lock()
	defer outMu.Unlock()
	if outW != nil {
		outW.Flush()
	}
}

// done ends the process from inside a bubble whose components never terminate.
func done() {
	flush()
	os.Exit(0)
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func newRand(salt int64) *rand.Rand { return rand.New(rand.NewSource(seed*1000003 + salt)) }

// readLines reads a file of JSON lines.
func readLines(path string, each func(line []byte)) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<28)
	for s.Scan() {
		if len(s.Bytes()) > 0 {
			each(s.Bytes())
		}
	}
}

// log is an ordered event log.
type evlog struct {
	mu sync.Mutex
	ev []J
}

func (l *evlog) add(e J) {
	l.mu.Lock()
	l.ev = append(l.ev, e)
	l.mu.Unlock()
}

func (l *evlog) take() []J {
	l.mu.Lock()
	defer l.mu.Unlock()
	e := l.ev
	l.ev = nil
	if e == nil {
		e = []J{}
	}
	return e
}

// fn is a resolver backed by a function.
type fn struct {
	name string
	f    func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error)
}

func (r *fn) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return r.f(q, ci) }
func (r *fn) String() string                                           { return r.name }

var errUp = errors.New("upstream failed")

func query(name string, typ uint16) *dns.Msg {
	q := new(dns.Msg)
	q.SetQuestion(name, typ)
	return q
}

func reply(q *dns.Msg, rcode int, rrs ...string) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	a.Rcode = rcode
	for _, s := range rrs {
		a.Answer = append(a.Answer, rr(s))
	}
	return a
}

func rr(s string) dns.RR {
	r, err := dns.NewRR(s)
	if err != nil || r == nil {
		panic(fmt.Sprintf("bad rr %q: %v", s, err))
	}
	return r
}

func ipBytes(ip net.IP) A {
	if ip4 := ip.To4(); ip4 != nil {
		ip = ip4
	}
	r := A{}
	for _, b := range ip {
		r = append(r, int(b))
	}
	return r
}

// rdata of a record as text, without the header.
func rdata(r dns.RR) string {
	s := r.String()
	h := r.Header().String()
	return strings.TrimPrefix(s, h)
}

func rrJ(r dns.RR) J {
	h := r.Header()
	ttl := int64(h.Ttl)
	return J{"n": h.Name, "t": int(h.Rrtype), "c": int(h.Class), "ttl": clampTTL(ttl), "d": rdata(r)}
}

func clampTTL(t int64) int64 {
	if t > 2147483647 {
		return 2147483647
	}
	return t
}

func rrsJ(rrs []dns.RR) A {
	r := A{}
	for _, x := range rrs {
		if _, ok := x.(*dns.OPT); ok {
			continue
		}
		r = append(r, rrJ(x))
	}
	return r
}

func optJ(m *dns.Msg) A {
	r := A{}
	for _, x := range m.Extra {
		o, ok := x.(*dns.OPT)
		if !ok {
			continue
		}
		opts := A{}
		for _, e := range o.Option {
			opts = append(opts, optionJ(e))
		}
		r = append(r, J{"do": o.Do(), "size": int(o.UDPSize()), "ver": int(o.Version()), "opts": opts})
	}
	return r
}

func optionJ(e dns.EDNS0) J {
	j := J{"code": int(e.Option()), "data": "", "fam": 0, "addr": A{}, "mask": 0, "scope": 0}
	switch o := e.(type) {
	case *dns.EDNS0_SUBNET:
		j["fam"] = int(o.Family)
		j["addr"] = ipBytes(o.Address)
		j["mask"] = int(o.SourceNetmask)
		j["scope"] = int(o.SourceScope)
	case *dns.EDNS0_LOCAL:
		j["data"] = hex.EncodeToString(o.Data)
	case *dns.EDNS0_PADDING:
		j["data"] = strconv.Itoa(len(o.Padding))
	default:
		j["data"] = e.String()
	}
	return j
}

func questionJ(qs []dns.Question) A {
	r := A{}
	for _, q := range qs {
		r = append(r, J{"n": q.Name, "t": int(q.Qtype), "c": int(q.Qclass)})
	}
	return r
}

// msgJ is the canonical projection of a message that the specifications talk about.
func msgJ(m *dns.Msg) J {
	if m == nil {
		return J{"nil": true}
	}
	return J{"nil": false, "id": int(m.Id), "qr": m.Response, "op": m.Opcode, "aa": m.Authoritative, "tc": m.Truncated,
		"rd": m.RecursionDesired, "ra": m.RecursionAvailable, "z": m.Zero, "ad": m.AuthenticatedData, "cd": m.CheckingDisabled,
		"rc": m.Rcode, "q": questionJ(m.Question), "an": rrsJ(m.Answer), "ns": rrsJ(m.Ns), "ex": rrsJ(m.Extra), "opt": optJ(m)}
}

// retJ is a resolver's return value.
func retJ(m *dns.Msg, err error) J {
	if err != nil {
		return J{"k": "err", "m": J{"nil": true}}
	}
	if m == nil {
		return J{"k": "nil", "m": J{"nil": true}}
	}
	return J{"k": "msg", "m": msgJ(m)}
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func randCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' && r.Intn(2) == 0 {
			b[i] -= 32
		}
	}
	return string(b)
}

// yieldHandler is a log handler that only gives other goroutines a chance to run: it
// perturbs schedules and has no other effect.
type yieldHandler struct{ n int }

func (yieldHandler) Enabled(_ ctxT, _ slog.Level) bool { return true }
func (h yieldHandler) Handle(_ ctxT, _ slog.Record) error {
	for i := rand.Intn(h.n + 1); i > 0; i-- {
		runtime.Gosched()
	}
	return nil
}
func (h yieldHandler) WithAttrs([]slog.Attr) slog.Handler { return h }
func (h yieldHandler) WithGroup(string) slog.Handler      { return h }

func perturb(n int) { rdns.Log = slog.New(yieldHandler{n}) }

// watchdog ends the process with a goroutine dump if f does not return in time (real time).
func watchdog(d time.Duration, what string) func() {
	t := time.AfterFunc(d, func() {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(os.Stderr, "WATCHDOG %s\n%s\n", what, buf[:n])
		flush()
		os.Exit(4)
	})
	return func() { t.Stop() }
}
