package rdns

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"testing"
	"time"
)

// Names that come and go in a directory, and what a subscriber is told.
func TestVerifWatch(t *testing.T) {
	Log = slog.New(slog.NewTextHandler(io.Discard, nil))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n, _ := strconv.Atoi(os.Getenv("VERIF_N"))
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	netnsDir = filepath.Join(os.Getenv("VERIF_SCRATCH"), "netns")
	other := filepath.Join(os.Getenv("VERIF_SCRATCH"), "elsewhere")
	if os.Mkdir(netnsDir, 0o700) != nil || os.Mkdir(other, 0o700) != nil {
		t.Fatal("no directory")
	}
	var mu sync.Mutex
	out := bufio.NewWriter(f)
	var wg sync.WaitGroup
	sem := make(chan bool, 16)
	for k := range n {
		r := rand.New(rand.NewSource(seed*1000003 + 62000 + int64(k)))
		sem <- true
		wg.Go(func() {
			defer func() { <-sem }()
			es := []map[string]any{}
			if k%8 == 0 {
				es = watchCrowd(r, fmt.Sprintf("ns%d", k))
			} else {
				es = append(es, watchScenario(r, fmt.Sprintf("ns%d", k), other))
			}
			mu.Lock()
			for _, e := range es {
				b, _ := json.Marshal(e)
				out.Write(append(b, '\n'))
			}
			mu.Unlock()
		})
	}
	wg.Wait()
	out.Flush()
	f.Close()
}

func watchScenario(r *rand.Rand, name, other string) map[string]any {
	path := filepath.Join(netnsDir, name)
	there := false
	removed := 0
	flip := func() {
		switch {
		case !there && r.Intn(4) == 0:
			os.WriteFile(filepath.Join(other, name), nil, 0o600)
			os.Rename(filepath.Join(other, name), path)
		case !there:
			os.WriteFile(path, nil, 0o600)
		case r.Intn(4) == 0:
			os.Rename(path, filepath.Join(other, name))
			removed++
		default:
			os.Remove(path)
			removed++
		}
		there = !there
	}
	for range r.Intn(3) {
		flip()
	}
	var ch <-chan NetNSState
	var cancel func()
	var err error
	sub := func() { ch, cancel, err = SubscribeNetNS(name) }
	if r.Intn(2) == 0 { // while things are changing
		done := make(chan bool)
		go func() { sub(); close(done) }()
		for range r.Intn(4) {
			flip()
		}
		<-done
	} else {
		sub()
	}
	if err != nil {
		panic(err)
	}
	removed = 0
	told := []bool{}
	var tmu sync.Mutex
	eager := r.Intn(2) == 0
	stop := make(chan bool)
	over := make(chan bool)
	go func() {
		defer close(over)
		for {
			select {
			case s := <-ch:
				tmu.Lock()
				told = append(told, s == NetNSPresent)
				tmu.Unlock()
			case <-stop:
				return
			}
		}
	}()
	steps := r.Intn(6)
	if !eager {
		close(stop) // nobody reads while it changes
		<-over
		steps = r.Intn(40)
	}
	for range steps {
		flip()
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		}
	}
	if !eager {
		time.Sleep(30 * time.Millisecond) // events have come in
	}
	first := there
	for end := time.Now().Add(3 * time.Second); time.Now().Before(end); {
		tmu.Lock()
		if !eager {
			for more := true; more; {
				select {
				case s := <-ch:
					told = append(told, s == NetNSPresent)
				default:
					more = false
				}
			}
		}
		ok := len(told) > 0 && told[len(told)-1] == there
		if len(told) > 0 {
			first = told[0]
		}
		tmu.Unlock()
		if ok {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
	if eager {
		close(stop)
		<-over
	}
	cancel()
	os.Remove(path)
	return map[string]any{"told": told, "now": there, "replaced": first && there && removed > 0, "eager": eager, "name": name, "steps": steps}
}

// Many subscribe while the name appears or goes for good.
func watchCrowd(r *rand.Rand, name string) []map[string]any {
	path := filepath.Join(netnsDir, name)
	now := r.Intn(2) == 0
	if !now {
		os.WriteFile(path, nil, 0o600)
	}
	type one struct {
		ch     <-chan NetNSState
		cancel func()
	}
	subs := make([]one, 120)
	var wg sync.WaitGroup
	for i := range subs {
		d := time.Duration(r.Intn(300)) * time.Microsecond
		wg.Go(func() {
			time.Sleep(d)
			ch, cancel, err := SubscribeNetNS(name)
			if err != nil {
				panic(err)
			}
			subs[i] = one{ch, cancel}
		})
	}
	time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	if now {
		os.WriteFile(path, nil, 0o600)
	} else {
		os.Remove(path)
	}
	wg.Wait()
	es := []map[string]any{}
	for _, s := range subs {
		told := []bool{}
		for end := time.Now().Add(3 * time.Second); ; {
			for more := true; more; {
				select {
				case s := <-s.ch:
					told = append(told, s == NetNSPresent)
				default:
					more = false
				}
			}
			if len(told) > 0 && told[len(told)-1] == now || time.Now().After(end) {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		s.cancel()
		es = append(es, map[string]any{"told": told, "now": now, "replaced": false, "eager": true, "name": name, "steps": 1})
	}
	os.Remove(path)
	return es
}
