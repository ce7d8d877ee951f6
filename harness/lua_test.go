package zzverif

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// The script does what the first part of the query name says.
const luaActs = `
local acts = {}
local function made(msg)
  local m = Message.new()
  m:set_reply(msg)
  m.answer = { RR.new({rtype = TypeTXT, name = "t.", class = ClassIN, ttl = 1, txt = { msg.questions[1].name }}) }
  return m
end
acts.pass = function(msg, ci) return Resolvers[1]:resolve(msg, ci) end
acts.passerr = function(msg, ci) Resolvers[1]:resolve(msg, ci) return nil, Error.new(msg.questions[1].name) end
acts.both = function(msg, ci) local a, e = Resolvers[1]:resolve(msg, ci) return a, Error.new(msg.questions[1].name) end
acts.upthenraise = function(msg, ci) Resolvers[1]:resolve(msg, ci) error("boom") end
acts.upthenbad = function(msg, ci) Resolvers[1]:resolve(msg, ci) return 7, nil end
acts.corup = function(msg, ci) return coroutine.wrap(function() return Resolvers[1]:resolve(msg, ci) end)() end
acts.guarded = function(msg, ci)
  local ok, a, e = pcall(function() return Resolvers[1]:resolve(msg, ci) end)
  if not ok then error("upstream failed") end
  return a, e
end
acts.choose = function(msg, ci)
  local a, e = Resolvers[1]:resolve(msg, ci)
  if e ~= nil then return made(msg), nil end
  if a == nil then return nil, Error.new(msg.questions[1].name) end
  return a, nil
end
acts.make = function(msg, ci) return made(msg), nil end
acts.error = function(msg, ci) return nil, Error.new(msg.questions[1].name) end
acts.drop = function(msg, ci) return nil, nil end
acts.less = function(msg, ci) return end
acts.single = function(msg, ci) return made(msg) end
acts.extra = function(msg, ci) return made(msg), nil, 5, {}, "x" end
acts.raise = function(msg, ci) error("boom") end
acts.raisetable = function(msg, ci) error({1, 2}) end
acts.raisenil = function(msg, ci) error(nil) end
acts.deepraise = function(msg, ci) local function f(n) if n == 0 then error("deep") end f(n - 1) return 1 end f(30) end
acts.badnum = function(msg, ci) return 5, nil end
acts.badbool = function(msg, ci) return made(msg), true end
acts.badboth = function(msg, ci) return {}, {} end
acts.badstr = function(msg, ci) return "text", nil end
acts.badtable = function(msg, ci) return {}, nil end
acts.badfn = function(msg, ci) return made, nil end
acts.badci = function(msg, ci) return ci, nil end
acts.badq = function(msg, ci) return msg.questions[1], nil end
acts.errstr = function(msg, ci) return nil, "text" end
acts.errnum = function(msg, ci) return made(msg), 5 end
acts.errtable = function(msg, ci) return made(msg), {} end
acts.errmsg = function(msg, ci) return nil, msg end
acts.recurse = function(msg, ci) local function f() return 1 + f() end return f() end
acts.yield = function(msg, ci) coroutine.yield(1) end
acts.coraise = function(msg, ci) return coroutine.wrap(function() error("in there") end)() end
acts.coleft = function(msg, ci) local c = coroutine.create(function() coroutine.yield(1) end) coroutine.resume(c) error("left it") end
acts.conest = function(msg, ci)
  return coroutine.wrap(function() return coroutine.wrap(function() error("inner") end)() end)()
end
acts.nilindex = function(msg, ci) local x = nil return x.y end
acts.badfield = function(msg, ci) return msg.nofield end
acts.setbad = function(msg, ci) msg.id = "x" end
acts.setro = function(msg, ci) ci.source_ip = "1.2.3.4" end
acts.missingarg = function(msg, ci) return Resolvers[1]:resolve(msg) end
acts.wrongarg = function(msg, ci) return Resolvers[1]:resolve(ci, msg) end
acts.noresolver = function(msg, ci) return Resolvers[9]:resolve(msg, ci) end
acts.badrr = function(msg, ci) return RR.new({rtype = TypeA, a = "not an address"}), nil end
function Resolve(msg, ci)
  local name = msg.questions[1].name
  return acts[string.match(name, "^(%a+)")](msg, ci)
end
`

var luaAsking = []string{"pass", "passerr", "both", "upthenraise", "upthenbad", "corup", "guarded", "choose"}
var luaPlain = []string{"make", "error", "drop", "less", "single", "extra", "raise", "raisetable", "raisenil", "deepraise", "badnum", "badbool", "badboth",
	"badstr", "badtable", "badfn", "badci", "badq", "errstr", "errnum", "errtable", "errmsg", "recurse", "yield", "coraise", "coleft", "conest",
	"nilindex", "badfield", "setbad", "setro", "missingarg", "wrongarg", "noresolver", "badrr"}

func luaOut(a *dns.Msg, err error) J {
	o := J{"k": "none", "tag": "", "err": ""}
	if err != nil {
		o["err"] = err.Error()
		if err.Error() == "" {
			o["err"] = "?"
		}
	}
	if a != nil {
		o["k"], o["tag"] = "msg", "?"
		if len(a.Answer) == 1 {
			if x, ok := a.Answer[0].(*dns.TXT); ok {
				o["tag"] = strings.Join(x.Txt, "")
			}
		}
	}
	return o
}

func luaScenario(r *rand.Rand, k int) J {
	log := &evlog{}
	size := 1 + r.Intn(4)
	var mu sync.Mutex
	asked := map[int]bool{}
	ru := rand.New(rand.NewSource(r.Int63()))
	num := func(q *dns.Msg) int {
		n := 0
		fmt.Sscanf(q.Question[0].Name[strings.IndexByte(q.Question[0].Name, '-')+1:], "%d", &n)
		return n
	}
	up := &fn{name: "up", f: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		c := num(q)
		mu.Lock()
		d := time.Duration(ru.Intn(2000)) * time.Millisecond
		x := ru.Intn(8)
		asked[c] = true
		log.add(J{"e": "ask", "c": c})
		mu.Unlock()
		time.Sleep(d)
		tag := fmt.Sprintf("u%d", c)
		u := J{"k": "msg", "tag": tag}
		var a *dns.Msg
		var err error
		switch {
		case x < 2:
			u["k"] = "err"
			err = errors.New(tag)
		case x < 3:
			u = J{"k": "nil", "tag": ""}
		default:
			a = reply(q, 0, fmt.Sprintf("t. 1 IN TXT %q", tag))
		}
		mu.Lock()
		delete(asked, c)
		log.add(J{"e": "answer", "c": c, "u": u})
		mu.Unlock()
		return a, err
	}}
	conc := uint(size)
	if r.Intn(5) == 0 {
		conc, size = 0, 4
	}
	l, err := rdns.NewLua("lua", rdns.LuaOptions{Script: luaActs, Concurrency: conc, NoSandbox: r.Intn(4) == 0}, up)
	if err != nil {
		panic(err)
	}
	quiet := func() {
		synctest.Wait()
		mu.Lock()
		ids := []int{}
		for c := range asked {
			ids = append(ids, c)
		}
		sort.Ints(ids)
		log.add(J{"e": "quiet", "up": ids})
		mu.Unlock()
	}
	n := 0
	call := func(act string) (*dns.Msg, error) {
		mu.Lock()
		n++
		c := n
		mu.Unlock()
		name := fmt.Sprintf("%s-%d.example.", act, c)
		log.add(J{"e": "call", "c": c, "act": act})
		a, err := l.Resolve(query(name, dns.TypeTXT), rdns.ClientInfo{Listener: fmt.Sprint(c)})
		log.add(J{"e": "ret", "c": c, "o": luaOut(a, err), "own": name})
		return a, err
	}
	// a long run of one kind first
	if k < len(luaPlain)*2 || r.Intn(8) == 0 {
		act := luaPlain[k%len(luaPlain)]
		name := act + "-0.example."
		times := envInt("VERIF_BATCH", 6000)
		if act == "recurse" || act == "deepraise" {
			times /= 20
		}
		seen, outs := map[string]bool{}, A{}
		for range times * size {
			a, err := l.Resolve(query(name, dns.TypeTXT), rdns.ClientInfo{})
			o := luaOut(a, err)
			if s := fmt.Sprint(o); !seen[s] && len(outs) < 5 {
				seen[s] = true
				outs = append(outs, o)
			}
		}
		log.add(J{"e": "batch", "act": act, "outs": outs, "own": name, "n": times * size})
	}
	var wg sync.WaitGroup
	for range 5 + r.Intn(20) {
		act := luaAsking[r.Intn(len(luaAsking))]
		if r.Intn(3) == 0 {
			act = luaPlain[r.Intn(len(luaPlain))]
		}
		wg.Go(func() { call(act) })
		if r.Intn(3) == 0 {
			quiet()
			time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
			if r.Intn(2) == 0 {
				quiet()
			}
		}
	}
	quiet()
	wg.Wait()
	// and as many at once as ever
	for range size + 2 {
		wg.Go(func() { call("pass") })
	}
	quiet()
	wg.Wait()
	return J{"cfg": J{"size": size}, "ev": log.take()}
}

func TestLuaPool(t *testing.T) {
	r := newRand(51000)
	for k := range envInt("VERIF_N", 100) {
		synctest.Test(t, func(t *testing.T) { emit(luaScenario(r, k)) })
	}
}

// Scripts that are accepted or refused at start.
func TestLuaStart(t *testing.T) {
	r := newRand(52000)
	ok := "function Resolve(msg, ci) return nil, nil end\n"
	for range envInt("VERIF_N", 200) {
		syntax, runs, entry := true, true, true
		s := ok
		switch r.Intn(14) {
		case 0:
			s, entry = "", false
		case 1:
			s, entry = "function resolve(msg, ci) return nil, nil end", false
		case 2:
			s, entry = "Resolve = 5", false
		case 3:
			s, entry = "local function Resolve(msg, ci) return nil, nil end", false
		case 4:
			s, entry = "Resolve = nil -- function Resolve()", false
		case 5:
			s, entry = ok+"Resolve = {}\n", false
		case 6:
			i := r.Intn(len(ok) - 4)
			s, syntax = ok[:i]+" ) "+ok[i:], false
		case 7:
			s, syntax = ok+[]string{"x = = 1", "if then", "end", "return return", "\"open", "f((", "for i=1 do", "local 5 = x", "x = 'a", "[[ open"}[r.Intn(10)], false
		case 8:
			s, runs = ok+[]string{"error('at start')", "local x = nil; x.y = 1", "undefined()", "Resolve(nil, nil).x()"}[r.Intn(4)], false
		case 9:
			s = "Resolve = function(msg, ci) return nil, nil end"
		case 10:
			s = "local f = function(msg, ci) return nil, nil end\n_G.Resolve = f"
		case 11:
			s = "-- comment\n" + ok + "x = 1 + 1\n"
		case 12:
			s = "rawset(_G, 'Resolve', function() end)"
		}
		l, err := rdns.NewLua("lua", rdns.LuaOptions{Script: s, Concurrency: uint(r.Intn(3)), NoSandbox: r.Intn(3) == 0})
		emit(J{"k": "start", "script": s, "syntax": syntax, "runs": runs, "entry": entry, "accepted": err == nil && l != nil})
	}
}

// Attempts of a script to get out, one per process: VERIF_ATTEMPT is the
// script, run as an unprivileged user under a tracer that sees the effects.
func TestLuaAttempt(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_ATTEMPT"))
	if err != nil {
		panic(err)
	}
	os.Stat("/verif-begin")
	l, err := rdns.NewLua("lua", rdns.LuaOptions{Script: string(b), Concurrency: 1, NoSandbox: os.Getenv("VERIF_NOSANDBOX") != ""},
		&fn{name: "up", f: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return reply(q, 0), nil }})
	res := "refused"
	if err == nil {
		a, err := l.Resolve(query("a.example.", dns.TypeA), rdns.ClientInfo{})
		res = fmt.Sprint(luaOut(a, err)["tag"])
		if err != nil {
			res = "error " + err.Error()
		}
	}
	os.Stat("/verif-end")
	os.WriteFile(filepath.Join(filepath.Dir(os.Getenv("VERIF_ATTEMPT")), "result"), []byte(res), 0o644)
}
