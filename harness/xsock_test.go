package zzverif

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"golang.org/x/sys/unix"
)

// One client connection of the socket hand-out server.
type xclient struct {
	fd int
	id int
}

func xdial(path string) (int, error) {
	fd, err := unix.Socket(unix.AF_UNIX, unix.SOCK_SEQPACKET|unix.SOCK_CLOEXEC, 0)
	if err != nil {
		return -1, err
	}
	tv := unix.NsecToTimeval(int64(20 * time.Second))
	unix.SetsockoptTimeval(fd, unix.SOL_SOCKET, unix.SO_RCVTIMEO, &tv)
	unix.SetsockoptTimeval(fd, unix.SOL_SOCKET, unix.SO_SNDTIMEO, &tv)
	if err := unix.Connect(fd, &unix.SockaddrUnix{Name: path}); err != nil {
		unix.Close(fd)
		return -1, err
	}
	return fd, nil
}

func xreq(magic, d, t, p uint32) []byte {
	b := make([]byte, 16)
	binary.BigEndian.PutUint32(b, magic)
	binary.BigEndian.PutUint32(b[4:], d)
	binary.BigEndian.PutUint32(b[8:], t)
	binary.BigEndian.PutUint32(b[12:], p)
	return b
}

const xmagic = 0x58533031

// What a descriptor is.
func sockJ(fd int) J {
	d, _ := unix.GetsockoptInt(fd, unix.SOL_SOCKET, unix.SO_DOMAIN)
	t, _ := unix.GetsockoptInt(fd, unix.SOL_SOCKET, unix.SO_TYPE)
	p, _ := unix.GetsockoptInt(fd, unix.SOL_SOCKET, unix.SO_PROTOCOL)
	fl, _ := unix.FcntlInt(uintptr(fd), unix.F_GETFL, 0)
	var st unix.Stat_t
	ino := uint64(0)
	if unix.Fstat(fd, &st) == nil {
		ino = st.Ino
	}
	return J{"d": d, "t": t, "p": p, "nb": fl&unix.O_NONBLOCK != 0, "ino": fmt.Sprint(ino)}
}

// What the operating system gives for the same request.
func osJ(d, t, p uint32) J {
	fd, err := unix.Socket(int(int32(d)), int(int32(t))|unix.SOCK_CLOEXEC, int(int32(p)))
	if err != nil {
		var e unix.Errno
		errors.As(err, &e)
		return J{"errno": int(e), "d": 0, "t": 0, "p": 0, "nb": false}
	}
	defer unix.Close(fd)
	j := sockJ(fd)
	delete(j, "ino")
	j["errno"] = 0
	return j
}

// Receives one response. ok is false at the end of the conversation.
func xrecv(fd int, keep func(int)) (J, string) {
	resp := make([]byte, 64)
	oob := make([]byte, unix.CmsgSpace(4*16))
	for {
		n, oobn, _, _, err := unix.Recvmsg(fd, resp, oob, unix.MSG_CMSG_CLOEXEC)
		if err == unix.EINTR {
			continue
		}
		if err == unix.ECONNRESET || err == unix.EPIPE {
			return nil, "closed"
		}
		if err == unix.EAGAIN {
			return nil, "silence"
		}
		if err != nil {
			return nil, err.Error()
		}
		fds := A{}
		scms, _ := unix.ParseSocketControlMessage(oob[:oobn])
		for i := range scms {
			rights, err := unix.ParseUnixRights(&scms[i])
			if err != nil {
				continue
			}
			for _, f := range rights {
				fds = append(fds, sockJ(f))
				keep(f)
			}
		}
		if n == 0 && len(fds) == 0 {
			return nil, "closed"
		}
		r := J{"magic": n == 8 && binary.BigEndian.Uint32(resp) == 0x58533032, "errno": -1, "fds": fds}
		if n >= 8 {
			r["errno"] = int(int32(binary.BigEndian.Uint32(resp[4:])))
		}
		return r, ""
	}
}

// The four numbers of a request, near the border of what is allowed.
func xrand(rnd *rand.Rand) (form string, magic, d, t, p uint32) {
	form, magic = "ok", xmagic
	pick := func(v ...uint32) uint32 { return v[rnd.Intn(len(v))] }
	d = pick(2, 2, 2, 10, 10, 10, 0, 1, 3, 16, 17, 40, 0x80000002, 0xffffffff, 258, uint32(rnd.Intn(64)))
	t = pick(1, 1, 1, 2, 2, 2, 3, 0, 4, 5, 10, 6, 0x80000001, 257, 0x10001, uint32(rnd.Intn(16)))
	if rnd.Intn(3) == 0 {
		t |= pick(2048, 0x80000, 0x80800, 1<<12, 1<<20, 1<<8)
	}
	p = pick(0, 0, 0, 6, 17, 6, 17, 1, 58, 132, 136, 255, 33, 262, 0x80000006, uint32(rnd.Intn(300)))
	if t&15 == 1 && rnd.Intn(2) == 0 {
		p = pick(0, 6)
	}
	if t&15 == 2 && rnd.Intn(2) == 0 {
		p = pick(0, 17)
	}
	return
}

// Clients of one server, each with its own sequence of requests, interleaved.
func TestXSocket(t *testing.T) {
	rnd := newRand(7100)
	for n := range envInt("VERIF_N", 20) {
		unrestricted := n%2 == 1
		path := filepath.Join(scrtch, fmt.Sprintf("x%d", n))
		if rnd.Intn(4) == 0 {
			path = fmt.Sprintf("@verif-%d-%d-%d", os.Getpid(), rnd.Int63(), n)
		}
		srv := rdns.NewXSocketServer(path, rdns.XSocketServerOptions{Unrestricted: unrestricted})
		ended := make(chan error, 1)
		go func() { ended <- srv.Start() }()
		waitX(t, path)
		var log evlog
		var wg sync.WaitGroup
		var kmu sync.Mutex
		var kept []int
		keep := func(fd int) { kmu.Lock(); kept = append(kept, fd); kmu.Unlock() }
		for c := range 2 + rnd.Intn(7) {
			seed := rnd.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				xconverse(rand.New(rand.NewSource(seed)), &log, path, c+1, keep)
			}()
		}
		wg.Wait()
		kmu.Lock()
		for _, fd := range kept {
			unix.Close(fd)
		}
		kmu.Unlock()
		srv.Stop()
		select {
		case <-ended:
		case <-time.After(20 * time.Second):
			log.add(J{"e": "neverstops"})
		}
		emit(J{"cfg": J{"unrestricted": unrestricted}, "ev": log.take()})
	}
}

func waitX(t *testing.T, path string) {
	for range 2000 {
		if fd, err := xdial(path); err == nil {
			unix.Close(fd)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	t.Fatal("the server does not come up")
}

func xconverse(rnd *rand.Rand, log *evlog, path string, c int, keep func(int)) {
	fd, err := xdial(path)
	if err != nil {
		log.add(J{"e": "refused", "c": c, "err": err.Error()})
		return
	}
	defer unix.Close(fd)
	log.add(J{"e": "connect", "c": c})
	waiting, over := 0, false
	recv := func() bool {
		r, end := xrecv(fd, keep)
		switch end {
		case "":
			log.add(J{"e": "recv", "c": c, "resp": r})
			waiting--
			return true
		default:
			log.add(J{"e": end, "c": c})
			over = true
			return false
		}
	}
	for range 1 + rnd.Intn(12) {
		form, magic, d, ty, p := xrand(rnd)
		b := xreq(magic, d, ty, p)
		switch rnd.Intn(40) {
		case 0:
			form, b = "bad", b[:rnd.Intn(16)]
			if len(b) == 0 {
				b = b[:1:1]
			}
		case 1:
			form = "bad"
			b[rnd.Intn(4)] ^= 1 << rnd.Intn(8)
		case 2:
			form, b = "long", append(b, make([]byte, 1+rnd.Intn(40))...)
		case 3:
			form, b = "bad", append(xreq(xmagic+1, d, ty, p), b...)
		}
		log.add(J{"e": "send", "c": c, "r": J{"form": form, "d": int(int32(d)), "t": int(int32(ty)), "p": int(int32(p)), "os": osJ(d, ty, p)}})
		var oob []byte
		if rnd.Intn(15) == 0 {
			oob = unix.UnixRights(fd) // a descriptor the server has not asked for
		}
		if err := unix.Sendmsg(fd, b, oob, nil, unix.MSG_NOSIGNAL); err != nil {
			break // the server has ended the conversation; reading says so
		}
		waiting++
		if form == "bad" {
			break
		}
		for waiting > 0 && rnd.Intn(3) > 0 {
			if !recv() {
				return
			}
		}
		if rnd.Intn(40) == 0 {
			log.add(J{"e": "abort", "c": c})
			return
		}
	}
	log.add(J{"e": "fin", "c": c})
	unix.Shutdown(fd, unix.SHUT_WR)
	for !over {
		recv()
	}
}

// One whole request on a fresh connection.
func xserves(path string) bool {
	fd, err := xdial(path)
	if err != nil {
		return false
	}
	defer unix.Close(fd)
	if unix.Sendmsg(fd, xreq(xmagic, 2, 2, 0), nil, nil, unix.MSG_NOSIGNAL) != nil {
		return false
	}
	ok := false
	r, end := xrecv(fd, func(f int) { ok = true; unix.Close(f) })
	return end == "" && ok && r["errno"] == 0
}

func statJ(path string) string {
	fi, err := os.Lstat(path)
	if err != nil {
		return "none"
	}
	s := fi.Sys().(*syscall.Stat_t)
	b := []byte{}
	if fi.Mode().IsRegular() {
		b, _ = os.ReadFile(path)
	}
	return fmt.Sprint(fi.Mode(), s.Ino, s.Dev, len(b), string(b))
}

// What stands at the path when the server starts, and what is left when it stops.
func TestXSocketLife(t *testing.T) {
	bin := os.Getenv("VERIF_BINARY")
	rnd := newRand(7200)
	whats := []string{"none", "none", "stale", "stale", "stalestream", "live", "livestream", "livefull", "file", "emptyfile",
		"dir", "emptydir", "fifo", "link", "dangling", "abstract", "abstractlive", "again"}
	for n := range envInt("VERIF_N", 40) {
		what := whats[n%len(whats)]
		dir, err := os.MkdirTemp(scrtch, "xl")
		if err != nil {
			t.Fatal(err)
		}
		path := filepath.Join(dir, "s")
		kind, undo := "other", func() {}
		bind := func(typ, backlog int, abstract bool) int {
			fd, err := unix.Socket(unix.AF_UNIX, typ|unix.SOCK_CLOEXEC, 0)
			if err != nil {
				t.Fatal(err)
			}
			if err := unix.Bind(fd, &unix.SockaddrUnix{Name: path}); err != nil {
				t.Fatal(err)
			}
			if backlog >= 0 {
				if err := unix.Listen(fd, backlog); err != nil {
					t.Fatal(err)
				}
			}
			return fd
		}
		abstract := strings.HasPrefix(what, "abstract")
		if abstract {
			path = fmt.Sprintf("@verif-%d-%d-%d", os.Getpid(), rnd.Int63(), n)
		}
		switch what {
		case "none", "abstract", "again":
			kind = "none"
		case "stale":
			kind = "stale"
			unix.Close(bind(unix.SOCK_SEQPACKET, 5, false))
		case "stalestream":
			kind = "stale"
			unix.Close(bind(unix.SOCK_STREAM, 5, false))
		case "live", "abstractlive":
			kind = "live"
			fd := bind(unix.SOCK_SEQPACKET, 5, false)
			undo = func() { unix.Close(fd) }
		case "livestream":
			kind = "live"
			fd := bind(unix.SOCK_STREAM, 5, false)
			undo = func() { unix.Close(fd) }
		case "livefull":
			kind = "live"
			fd := bind(unix.SOCK_SEQPACKET, 0, false)
			var cs []int
			for range 3 {
				c, _ := unix.Socket(unix.AF_UNIX, unix.SOCK_SEQPACKET|unix.SOCK_CLOEXEC|unix.SOCK_NONBLOCK, 0)
				unix.Connect(c, &unix.SockaddrUnix{Name: path})
				cs = append(cs, c)
			}
			undo = func() {
				for _, c := range cs {
					unix.Close(c)
				}
				unix.Close(fd)
			}
		case "file":
			os.WriteFile(path, []byte("precious"), 0600)
		case "emptyfile":
			os.WriteFile(path, nil, 0600)
		case "dir":
			os.MkdirAll(filepath.Join(path, "sub"), 0700)
		case "emptydir":
			os.Mkdir(path, 0700)
		case "fifo":
			unix.Mkfifo(path, 0600)
		case "link":
			os.WriteFile(filepath.Join(dir, "real"), []byte("precious"), 0600)
			os.Symlink("real", path)
		case "dangling":
			os.Symlink("missing", path)
		}
		mode := []os.FileMode{0, 0600, 0660, 0666, 0777, 0400}[rnd.Intn(6)]
		before := statJ(path)
		started, served, issock, gotmode := false, false, false, 0
		stopped, gone := false, false
		ended := make(chan error, 1)
		var stop func()
		if bin != "" && n%3 == 0 {
			args := []string{"fd-server", "-l", "1"}
			if mode != 0 {
				args = append(args, "--mode", fmt.Sprintf("%04o", mode))
			}
			cmd := exec.Command(bin, append(args, path)...)
			cmd.Env = []string{"PATH=/usr/bin:/bin"}
			if err := cmd.Start(); err != nil {
				t.Fatal(err)
			}
			go func() { ended <- cmd.Wait() }()
			stop = func() { cmd.Process.Signal(unix.SIGTERM) }
			defer cmd.Process.Kill()
		} else {
			srv := rdns.NewXSocketServer(path, rdns.XSocketServerOptions{SocketMode: mode})
			go func() { ended <- srv.Start() }()
			stop = func() { srv.Stop() }
		}
		// either it ends by itself or it serves
		deadline := time.Now().Add(20 * time.Second)
	wait:
		for time.Now().Before(deadline) {
			select {
			case <-ended:
				ended = nil
				break wait
			default:
			}
			if kind == "none" || kind == "stale" {
				if xserves(path) {
					started, served = true, true
					break
				}
			} else if !abstract && statJ(path) != before {
				break // taken over
			}
			time.Sleep(3 * time.Millisecond)
		}
		if ended != nil && !started {
			started = true // still running, though it does not serve
		}
		if started && !abstract {
			// permissions are set after the file appears
			for range 200 {
				if fi, err := os.Lstat(path); err == nil {
					issock, gotmode = fi.Mode()&os.ModeSocket != 0, int(fi.Mode().Perm())
				}
				if mode == 0 || gotmode == int(mode) {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
		same := statJ(path) == before
		if started {
			stop()
			select {
			case <-ended:
				stopped = true
			case <-time.After(20 * time.Second):
			}
			if abstract {
				fd, err := xdial(path)
				if err == nil {
					unix.Close(fd)
				}
				gone = err != nil
			} else {
				gone = statJ(path) == "none"
			}
		}
		if what == "link" {
			b, _ := os.ReadFile(filepath.Join(dir, "real"))
			same = same && string(b) == "precious"
		}
		undo()
		os.RemoveAll(dir)
		emit(J{"k": "life", "what": what, "kind": kind, "abstract": abstract, "mode": int(mode), "started": started, "served": served,
			"issock": issock, "gotmode": gotmode, "stopped": stopped, "gone": gone, "same": same})
	}
}

// A server with few descriptors meets more clients and requests than it has
// descriptors for; afterwards it has to serve as before.
func TestXSocketEndure(t *testing.T) {
	bin := os.Getenv("VERIF_BINARY")
	rnd := newRand(7300)
	for n := range envInt("VERIF_N", 4) {
		path := filepath.Join(scrtch, fmt.Sprintf("xe%d", n))
		limit := 24 + rnd.Intn(20)
		arg := ""
		if n%2 == 1 {
			arg = "--unrestricted"
		}
		cmd := exec.Command("/bin/sh", "-c", fmt.Sprintf("ulimit -n %d; exec %s fd-server -l 1 %s %s", limit, bin, arg, path))
		cmd.Env = []string{"PATH=/usr/bin:/bin"}
		if err := cmd.Start(); err != nil {
			t.Fatal(err)
		}
		ended := make(chan struct{})
		go func() { cmd.Wait(); close(ended) }()
		waitX(t, path)
		what := []string{"requests", "aborts", "malformed", "connections"}[n%4]
		for k := range limit * 4 {
			switch what {
			case "requests":
				xserves(path)
			case "aborts", "malformed":
				fd, err := xdial(path)
				if err != nil {
					continue
				}
				b := xreq(xmagic, 2, 1, 0)
				if what == "malformed" {
					b = b[:k%16]
				}
				for range 1 + k%3 {
					unix.Sendmsg(fd, b, nil, nil, unix.MSG_NOSIGNAL)
				}
				unix.Close(fd)
			}
		}
		if what == "connections" {
			var cs []net.Conn
			for range limit * 2 {
				c, err := net.DialTimeout("unixpacket", path, time.Second)
				if err == nil {
					cs = append(cs, c)
				}
			}
			time.Sleep(300 * time.Millisecond)
			for _, c := range cs {
				c.Close()
			}
		}
		alive, served := true, false
		for range 100 {
			if served = xserves(path); served {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		select {
		case <-ended:
			alive = false
		default:
		}
		cmd.Process.Signal(unix.SIGTERM)
		select {
		case <-ended:
		case <-time.After(10 * time.Second):
			cmd.Process.Kill()
			<-ended
		}
		emit(J{"k": "endure", "what": what, "limit": limit, "alive": alive, "served": served})
	}
}
