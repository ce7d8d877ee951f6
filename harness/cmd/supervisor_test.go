package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
)

type vfJ = map[string]any

// vfWorld is a namespace that comes and goes and the listeners built for it.
type vfWorld struct {
	mu      sync.Mutex
	r       *rand.Rand
	ev      []vfJ
	n       int
	healthy bool
	all     []*vfListener
}

func (w *vfWorld) add(e vfJ) { w.ev = append(w.ev, e) }

// vfListener is a listener that may fail, start late and stop late.
type vfListener struct {
	w     *vfWorld
	n     int
	fails time.Duration // after which Start returns by itself, 0 never
	late  time.Duration // before which Stop has no effect
	deaf  int           // calls of Stop without effect
	slow  time.Duration // from Stop to the return of Start
	stop  chan struct{}
	up    bool
	gone  bool
}

func (l *vfListener) String() string { return "l" + strconv.Itoa(l.n) }

func (l *vfListener) Start() error {
	l.w.mu.Lock()
	l.w.add(vfJ{"e": "start", "n": l.n})
	l.w.mu.Unlock()
	end := func(err error) error {
		l.w.mu.Lock()
		l.w.add(vfJ{"e": "end", "n": l.n})
		l.w.mu.Unlock()
		return err
	}
	var fails <-chan time.Time
	if l.fails > 0 {
		if l.fails < time.Millisecond {
			return end(errors.New("address in use"))
		}
		fails = time.After(l.fails)
	}
	if l.late > 0 {
		select {
		case <-time.After(l.late):
		case <-fails:
			return end(errors.New("failed early"))
		}
	}
	l.w.mu.Lock()
	l.up = true
	l.w.mu.Unlock()
	select {
	case <-fails:
		if l.w.n%2 == 0 {
			return end(nil)
		}
		return end(errors.New("failed"))
	case <-l.stop:
		time.Sleep(l.slow)
		return end(nil)
	}
}

func (l *vfListener) Stop() error {
	l.w.mu.Lock()
	defer l.w.mu.Unlock()
	l.w.add(vfJ{"e": "stop", "n": l.n})
	if !l.up {
		return errors.New("not started")
	}
	if l.deaf > 0 {
		l.deaf--
		return nil
	}
	if !l.gone {
		l.gone = true
		close(l.stop)
	}
	return nil
}

func (w *vfWorld) build() (rdns.Listener, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.healthy && w.r.Intn(4) == 0 {
		w.add(vfJ{"e": "buildfail"})
		return nil, errors.New("cannot build")
	}
	w.n++
	l := &vfListener{w: w, n: w.n, stop: make(chan struct{})}
	ms := func(n int) time.Duration { return time.Duration(w.r.Intn(n)) * time.Millisecond }
	if w.r.Intn(3) == 0 {
		l.late = ms(800)
	}
	if w.r.Intn(3) == 0 {
		l.deaf = w.r.Intn(5)
	}
	if w.r.Intn(3) == 0 {
		l.slow = ms(1000)
	}
	if !w.healthy {
		switch w.r.Intn(6) {
		case 0:
			l.fails = 1
		case 1, 2:
			l.fails = ms(3000) + time.Millisecond
		}
	}
	w.all = append(w.all, l)
	w.add(vfJ{"e": "build", "n": l.n})
	return l, nil
}

func TestVerifSupervisor(t *testing.T) {
	rdns.Log = slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 10}))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n, _ := strconv.Atoi(os.Getenv("VERIF_N"))
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	out := bufio.NewWriter(f)
	r := rand.New(rand.NewSource(seed*1000003 + 61000))
	for range n {
		synctest.Test(t, func(t *testing.T) {
			w := &vfWorld{r: rand.New(rand.NewSource(r.Int63()))}
			wr := rand.New(rand.NewSource(r.Int63()))
			waitNetNSReady = func(string, time.Duration) error {
				time.Sleep(time.Duration(wr.Intn(1000)) * time.Millisecond)
				if wr.Intn(4) == 0 {
					return errors.New("not ready")
				}
				return nil
			}
			events := make(chan rdns.NetNSState, 16)
			over := make(chan bool)
			go func() {
				runNetNSSupervisor("id", "ns", events, w.build)
				close(over)
			}()
			present := false
			offer := func(p bool) {
				present = p
				w.mu.Lock()
				w.add(vfJ{"e": "ns", "p": p})
				w.mu.Unlock()
				if p {
					events <- rdns.NetNSPresent
				} else {
					events <- rdns.NetNSAbsent
				}
			}
			settle := func() {
				w.mu.Lock()
				w.healthy = true
				w.mu.Unlock()
				time.Sleep(40 * time.Second)
				synctest.Wait()
				w.mu.Lock()
				w.add(vfJ{"e": "settled", "p": present})
				w.healthy = false
				w.mu.Unlock()
			}
			offer(r.Intn(2) == 0)
			for range 2 + r.Intn(10) {
				switch x := r.Intn(10); {
				case x < 4:
				case x < 7:
					time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
				case x < 9:
					time.Sleep(time.Duration(r.Intn(4000)) * time.Millisecond)
				default:
					settle()
				}
				if r.Intn(12) == 0 {
					offer(present)
				} else {
					offer(!present)
				}
			}
			settle()
			// a listener that fails in the midst of it all comes back
			close(events)
			<-over
			w.mu.Lock()
			for _, l := range w.all {
				if !l.gone {
					l.gone = true
					close(l.stop)
				}
			}
			b, _ := json.Marshal(vfJ{"cfg": vfJ{}, "ev": w.ev})
			w.mu.Unlock()
			out.Write(append(b, '\n'))
			time.Sleep(time.Minute)
		})
	}
	out.Flush()
	f.Close()
}
