// Package udpx has the UDP client side: sockets with recording readers, free
// ports, and the kernel's drop counters (the oracle that tells a lost datagram
// from a query nobody answered).
package udpx

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Packet struct {
	From *net.UDPAddr
	B    []byte
}

// Sock is a client socket whose reader hands every datagram to On.
type Sock struct {
	C    *net.UDPConn
	Addr *net.UDPAddr
	N    int64 // datagrams received
	mu   sync.Mutex
	on   func(Packet)
	done chan struct{}
}

// Listen binds ip:port (port 0 for any) and starts the reader.
func Listen(ip string, port int, on func(Packet)) (*Sock, error) {
	a := &net.UDPAddr{IP: net.ParseIP(ip), Port: port}
	c, err := net.ListenUDP("udp", a)
	if err != nil {
		return nil, err
	}
	c.SetReadBuffer(1 << 20)
	s := &Sock{C: c, Addr: c.LocalAddr().(*net.UDPAddr), on: on, done: make(chan struct{})}
	go s.read()
	return s, nil
}

func (s *Sock) read() {
	defer close(s.done)
	buf := make([]byte, 70000)
	for {
		n, from, err := s.C.ReadFromUDP(buf)
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				continue
			}
			if strings.Contains(err.Error(), "closed") {
				return
			}
			continue
		}
		b := append([]byte(nil), buf[:n]...)
		s.mu.Lock()
		on := s.on
		s.mu.Unlock()
		if on != nil {
			on(Packet{from, b})
		}
		atomic.AddInt64(&s.N, 1)
	}
}

func (s *Sock) Received() int64 { return atomic.LoadInt64(&s.N) }

func (s *Sock) Send(b []byte, to *net.UDPAddr) error {
	for i := 0; ; i++ {
		_, err := s.C.WriteToUDP(b, to)
		if err == nil || i == 20 || strings.Contains(err.Error(), "closed") {
			return err
		}
		// a full send queue is the sender's problem
		time.Sleep(time.Duration(i+1) * time.Millisecond)
	}
}

func (s *Sock) Close() {
	s.C.Close()
	<-s.done
}

var (
	givenMu sync.Mutex
	given   = map[int]bool{}
)

// fresh gives each port to one caller only.
func fresh(p int) bool {
	givenMu.Lock()
	defer givenMu.Unlock()
	if given[p] && len(given) < 15000 {
		return false
	}
	given[p] = true
	return true
}

// FreePort finds a UDP and TCP port nobody uses, outside the range the kernel
// hands out, so that nobody takes it before the caller binds it.
func FreePort() int {
	for i := 0; i < 2000; i++ {
		p := 11000 + rand.Intn(20000)
		c, err := net.ListenUDP("udp", &net.UDPAddr{Port: p})
		if err != nil {
			continue
		}
		c.Close()
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		l.Close()
		if !fresh(p) {
			continue
		}
		return p
	}
	return 0
}

// Drops sums the kernel's drop counters of the sockets bound to the port.
func Drops(port int) (int64, bool) {
	var sum int64
	found := false
	for _, f := range []string{"/proc/net/udp", "/proc/net/udp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) < 13 || !strings.Contains(w[0], ":") {
				continue
			}
			i := strings.LastIndex(w[1], ":")
			p, err := strconv.ParseInt(w[1][i+1:], 16, 32)
			if err != nil || int(p) != port {
				continue
			}
			d, err := strconv.ParseInt(w[len(w)-1], 10, 64)
			if err == nil {
				sum += d
				found = true
			}
		}
	}
	return sum, found
}

// Lossless tells whether the kernel counted no drop at any of the ports.
func Lossless(ports ...int) (ok, known bool) {
	known = true
	for _, p := range ports {
		d, k := Drops(p)
		if !k {
			known = false
		}
		if d > 0 {
			return false, true
		}
	}
	return known, known
}

// Queued is what the sockets bound to the port still hold, in bytes.
func Queued(port int) int64 {
	var sum int64
	for _, f := range []string{"/proc/net/udp", "/proc/net/udp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) < 13 || !strings.Contains(w[0], ":") {
				continue
			}
			i := strings.LastIndex(w[1], ":")
			p, err := strconv.ParseInt(w[1][i+1:], 16, 32)
			if err != nil || int(p) != port {
				continue
			}
			q := strings.Split(w[4], ":")
			if len(q) == 2 {
				n, err := strconv.ParseInt(q[1], 16, 64)
				if err == nil {
					sum += n
				}
			}
		}
	}
	return sum
}

func Loop(port int) *net.UDPAddr {
	return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
}

func SameAddr(a, b *net.UDPAddr) bool {
	return a != nil && b != nil && a.IP.Equal(b.IP) && a.Port == b.Port
}

func Fmt(a *net.UDPAddr) string { return fmt.Sprint(a) }
