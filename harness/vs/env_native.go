//go:build go1.21 && verifnative

package vs

// The environment of a native replay: package net of the replay binary is built with a hook
// (net.VerifListen) so that sockets are queues in memory, and the whole run is inside a
// testing/synctest bubble, so that time is virtual.

import (
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"
)

var (
	mu         sync.Mutex
	socks      []*fsock
	sent       []Packet
	binds      []Bind
	failWrites int
	failErrno  int
	failListen bool
	start      time.Time
	ended      bool
	stressing  bool
)

type fdgram struct {
	data []byte
	ip   [4]byte
	port int
	err  error
}

type fsock struct {
	id     int
	q      []fdgram
	wake   chan struct{}
	closed bool
	laddr  *net.UDPAddr
	dl     time.Time
	dlT    *time.Timer
}

// Begin starts a run with the given inputs.
func Begin(v map[string]uint64, thorough bool) {
	vals = v
	thoro = thorough
	start = time.Now()
	net.VerifListen = func(network string, laddr *net.UDPAddr) (net.VerifConn, error) {
		mu.Lock()
		defer mu.Unlock()
		if failListen {
			return nil, errors.New("address already in use")
		}
		s := &fsock{id: len(socks), wake: make(chan struct{}), laddr: laddr}
		socks = append(socks, s)
		b := Bind{Port: laddr.Port}
		if ip := laddr.IP.To4(); ip != nil {
			b.IP = append([]byte{}, ip...)
		}
		binds = append(binds, b)
		return s, nil
	}
}

// End reports a normal end of the harness.
func End() { finish(0, "DONE") }

func finish(code int, msg string) {
	for _, m := range missed {
		out("MISSING %s", m)
	}
	out("%s", msg)
	if stressing && code == 0 {
		runtime.Goexit()
	}
	os.Exit(code)
}

func (s *fsock) kick() {
	close(s.wake)
	s.wake = make(chan struct{})
}

func (s *fsock) ReadFrom(b []byte) (int, *net.UDPAddr, error) {
	for {
		mu.Lock()
		if s.closed {
			mu.Unlock()
			return 0, nil, net.ErrClosed
		}
		if len(s.q) > 0 {
			d := s.q[0]
			s.q = s.q[1:]
			mu.Unlock()
			if d.err != nil {
				return 0, nil, d.err
			}
			n := copy(b, d.data)
			return n, &net.UDPAddr{IP: net.IP(append([]byte{}, d.ip[:]...)), Port: d.port}, nil
		}
		if !s.dl.IsZero() && !time.Now().Before(s.dl) {
			mu.Unlock()
			return 0, nil, os.ErrDeadlineExceeded
		}
		w := s.wake
		mu.Unlock()
		<-w
	}
}

func (s *fsock) WriteTo(b []byte, addr *net.UDPAddr) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	if s.closed {
		return 0, net.ErrClosed
	}
	ip := addr.IP
	if len(ip) == 0 {
		ip = net.IPv4zero
	}
	ip4 := ip.To4()
	if ip4 == nil {
		return 0, &net.AddrError{Err: "non-IPv4 address", Addr: ip.String()}
	}
	if failWrites > 0 {
		failWrites--
		return 0, netErr("sendto", failErrno)
	}
	sent = append(sent, Packet{IP: append([]byte{}, ip4...), Port: addr.Port, Data: append([]byte{}, b...), At: Clock(), Sock: s.id})
	return len(b), nil
}

func (s *fsock) Close() error {
	mu.Lock()
	defer mu.Unlock()
	if s.closed {
		return net.ErrClosed
	}
	s.closed = true
	s.kick()
	return nil
}

func (s *fsock) LocalAddr() net.Addr {
	a := *s.laddr
	if a.IP == nil {
		a.IP = net.IP{0, 0, 0, 0}
	}
	return &a
}

func (s *fsock) SetReadDeadline(t time.Time) error {
	mu.Lock()
	defer mu.Unlock()
	if s.closed {
		return net.ErrClosed
	}
	if s.dlT != nil {
		s.dlT.Stop()
	}
	s.dl = t
	if !t.IsZero() {
		s.dlT = time.AfterFunc(time.Until(t), func() {
			mu.Lock()
			s.kick()
			mu.Unlock()
		})
	}
	return nil
}

func deliver(d fdgram) {
	mu.Lock()
	defer mu.Unlock()
	for _, s := range socks {
		if !s.closed {
			s.q = append(s.q, d)
			s.kick()
		}
	}
}

func Inject(data []byte, ip [4]byte, port int) {
	deliver(fdgram{data: append([]byte{}, data...), ip: ip, port: port})
}
func InjectErr(errno int) { deliver(fdgram{err: netErr("recvfrom", errno)}) }

// netErr is what package net wraps in an OpError
func netErr(call string, errno int) error {
	if errno == 0 {
		return os.ErrDeadlineExceeded
	}
	return os.NewSyscallError(call, syscall.Errno(errno))
}

func FailWrites(n, errno int) {
	mu.Lock()
	failWrites, failErrno = n, errno
	mu.Unlock()
}

func FailListen(b bool) {
	mu.Lock()
	failListen = b
	mu.Unlock()
}

func Sent() []Packet {
	mu.Lock()
	defer mu.Unlock()
	return append([]Packet{}, sent...)
}

func ClearSent() {
	mu.Lock()
	sent = nil
	mu.Unlock()
}

func Listens() []Bind {
	mu.Lock()
	defer mu.Unlock()
	return append([]Bind{}, binds...)
}

func Settle()                  { synctest.Wait() }
func Advance(d time.Duration)  { time.Sleep(d) }
func Clock() int64             { return int64(time.Since(start)) }
func Schedule(delays, sel int) {}
func Starve()                  {}
func Coincide(n int)           {}
func MapOrder(n int)           {}
func RaceDetect()              {}

var own sync.Mutex

func Lock()   { own.Lock() }
func Unlock() { own.Unlock() }

func OpenSockets() int {
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for _, s := range socks {
		if !s.closed {
			n++
		}
	}
	return n
}

// Goroutines counts the live goroutines created by the code under test.
func Goroutines() int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		i := strings.LastIndex(g, "created by ")
		if i < 0 {
			continue
		}
		by := g[i+len("created by "):]
		if strings.HasPrefix(by, "github.com/jsimonetti/go-artnet") && !strings.HasPrefix(by, "github.com/jsimonetti/go-artnet/zz_verif") {
			n++
		}
	}
	return n
}

var _ = fmt.Sprint
