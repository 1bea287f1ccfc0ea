package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/h"
	"verifharness/peersim"
	"verifharness/ref"
	"verifharness/udpx"
)

func sha(s string) string { x := sha1.Sum([]byte(s)); return string(x[:]) }

var (
	crawlerId = sha("galaio.p2pclawer")
	peerId    = sha("galaio.peerId")
)

// Conf is what the run configures.
type Conf struct {
	Port      int
	Workers   int
	Bootstrap []string
	Queue     int
	Fetchers  int
	Level     string
	Prof      bool     // profiling server on its fixed port
	Env       []string // more environment
	Wrap      []string // command that runs the crawler, named by its arguments
	Attr      *syscall.SysProcAttr
}

func (c Conf) json() []byte {
	if c.Workers == 0 {
		c.Workers = 64
	}
	if c.Queue == 0 {
		c.Queue = 5000
	}
	if c.Fetchers == 0 {
		c.Fetchers = 50
	}
	if c.Level == "" {
		c.Level = "Error"
	}
	if c.Bootstrap == nil {
		c.Bootstrap = []string{}
	}
	b, _ := json.Marshal(map[string]interface{}{
		"dht":          map[string]interface{}{"Port": c.Port, "WorkPoolSize": c.Workers, "BootstrapNodes": c.Bootstrap},
		"fetchTorrent": map[string]interface{}{"InfoHashQueueSize": c.Queue, "WorkPoolSize": c.Fetchers},
		"pprof":        map[string]interface{}{"NeedRun": c.Prof},
		"logger":       map[string]interface{}{"Level": c.Level},
	})
	return b
}

// Proc is a running crawler.
type Proc struct {
	Dir  string
	Port int
	Addr *net.UDPAddr
	cmd  *exec.Cmd
	done chan struct{}
	err  error
	end  time.Time
	stop int32 // told to stop
	out  *os.File
	errf *os.File
}

var procN int64

func crawlerBin() string {
	b := os.Getenv("VERIF_CRAWLER")
	if b == "" {
		h.Fatal("VERIF_CRAWLER is not set")
	}
	return b
}

func newDir() string {
	d := filepath.Join(h.Scratch, fmt.Sprintf("crawl%d", atomic.AddInt64(&procN, 1)))
	if err := os.MkdirAll(filepath.Join(d, "conf"), 0755); err != nil {
		h.Fatal("%v", err)
	}
	return d
}

// launch starts the program in dir with the arguments.
func launch(dir string, args ...string) *Proc { return launchConf(dir, Conf{}, args...) }

func launchConf(dir string, c Conf, args ...string) *Proc {
	env := c.Env
	p := &Proc{Dir: dir, done: make(chan struct{})}
	argv := append(append(append([]string{}, c.Wrap...), crawlerBin()), args...)
	p.cmd = exec.Command(argv[0], argv[1:]...)
	p.cmd.Dir = dir
	if len(env) > 0 {
		p.cmd.Env = append(os.Environ(), env...)
	}
	var err error
	if p.out, err = os.OpenFile(filepath.Join(dir, "stdout"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644); err != nil {
		h.Fatal("%v", err)
	}
	if p.errf, err = os.OpenFile(filepath.Join(dir, "stderr"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644); err != nil {
		h.Fatal("%v", err)
	}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.errf
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if c.Attr != nil {
		p.cmd.SysProcAttr = c.Attr
	}
	if err := p.cmd.Start(); err != nil {
		if c.Attr != nil {
			return nil
		}
		h.Fatal("starting the crawler: %v", err)
	}
	go func() {
		p.err = p.cmd.Wait()
		p.end = time.Now()
		p.out.Close()
		p.errf.Close()
		close(p.done)
	}()
	return p
}

// start runs the crawler on a port of its own and waits until it answers.
func start(c Conf) *Proc { return startIn(newDir(), c) }

func startIn(dir string, c Conf) *Proc {
	for i := 0; i < 20; i++ {
		cc := c
		if cc.Port == 0 {
			cc.Port = udpx.FreePort()
		}
		os.WriteFile(filepath.Join(dir, "conf", "config.json"), cc.json(), 0644)
		p := launchConf(dir, c)
		p.Port = cc.Port
		p.Addr = udpx.Loop(cc.Port)
		if p.ready(20 * time.Second) {
			return p
		}
		dead := p.exited()
		p.Kill()
		e := p.Stderr()
		if dead && strings.Contains(e, "address already in use") {
			continue
		}
		if dead {
			h.R.Violate("start", "the crawler ended at start-up: "+p.status(), trim(e))
		} else {
			h.R.Violate("start", "the crawler did not answer a ping within 20 seconds of its start", trim(e))
		}
		h.R.Finish()
	}
	h.Fatal("no free port")
	return nil
}

func trim(s string) string {
	if i := strings.Index(s, "panic: "); i > 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error: "); i > 0 {
		s = s[i:]
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func (p *Proc) ready(limit time.Duration) bool {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		h.Fatal("%v", err)
	}
	defer c.Close()
	return h.WaitProbe(limit, 200*time.Millisecond, func() bool {
		if p.exited() {
			return true
		}
		return pingOnce(c, p.Addr, 200*time.Millisecond)
	}) && !p.exited()
}

var pingN int64

func pingOnce(c *net.UDPConn, to *net.UDPAddr, wait time.Duration) bool {
	t := fmt.Sprintf("P%07d", atomic.AddInt64(&pingN, 1))
	c.WriteToUDP(query(t, "ping", ref.D(ref.E("id", ref.S(string(make([]byte, 20)))))), to)
	c.SetReadDeadline(time.Now().Add(wait))
	buf := make([]byte, 4096)
	for {
		n, _, err := c.ReadFromUDP(buf)
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return false
			}
			time.Sleep(5 * time.Millisecond) // refused: not bound yet
			return false
		}
		v, _, st := ref.Parse(string(buf[:n]))
		if st != ref.OK {
			continue
		}
		if y, _ := v.Str("y"); y != "r" {
			continue
		}
		if x, _ := v.Str("t"); x == t {
			return true
		}
	}
}

func (p *Proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *Proc) status() string {
	if !p.exited() {
		return "running"
	}
	if p.err == nil {
		return "exit status 0"
	}
	return p.err.Error()
}

func (p *Proc) Kill() {
	atomic.StoreInt32(&p.stop, 1)
	p.cmd.Process.Kill()
	<-p.done
}

func (p *Proc) Signal(s os.Signal) {
	atomic.StoreInt32(&p.stop, 1)
	p.cmd.Process.Signal(s)
}

func (p *Proc) Stderr() string { b, _ := os.ReadFile(filepath.Join(p.Dir, "stderr")); return string(b) }
func (p *Proc) Stdout() string { b, _ := os.ReadFile(filepath.Join(p.Dir, "stdout")); return string(b) }

// Alive checks that nobody ended the crawler but us.
func (p *Proc) Alive(doing string) bool {
	if !p.exited() {
		return true
	}
	if atomic.LoadInt32(&p.stop) == 0 {
		h.R.Violate("terminated", fmt.Sprintf("the crawler ended by itself (%s) while %s", p.status(), doing), trim(p.Stderr()))
	}
	return false
}

// Pings tells whether a well-formed query is answered, allowing for datagrams
// the kernel drops on a full socket.
func (p *Proc) Pings(limit time.Duration) bool {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		h.Fatal("%v", err)
	}
	defer c.Close()
	ok := false
	if limit < 30*time.Second {
		limit = 30 * time.Second
	}
	h.WaitProbe(limit, 300*time.Millisecond, func() bool {
		if p.exited() {
			return true
		}
		ok = pingOnce(c, p.Addr, 300*time.Millisecond)
		return ok
	})
	return ok
}

// Dump makes the crawler print its goroutines (and die).
func (p *Proc) Dump() string {
	atomic.StoreInt32(&p.stop, 1)
	p.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-p.done:
	case <-time.After(5 * time.Second):
		p.Kill()
	}
	e := p.Stderr()
	if len(e) > 20000 {
		e = e[len(e)-20000:]
	}
	return e
}

// query is the canonical datagram of a query.
func query(t, q string, a *ref.Val) []byte {
	return ref.Encode(ref.D(ref.E("a", a), ref.E("q", ref.S(q)), ref.E("t", ref.S(t)), ref.E("y", ref.S("q"))))
}

func response(t string, r *ref.Val) []byte {
	return ref.Encode(ref.D(ref.E("r", r), ref.E("t", ref.S(t)), ref.E("y", ref.S("r"))))
}

func getPeers(t, id, hash string) []byte {
	return query(t, "get_peers", besides("get_peers", hash, ref.E("id", ref.S(id)), ref.E("info_hash", ref.S(hash))))
}

// besides adds, to the queries for some hashes, what the extensions of the
// protocol add (BEP 32, 33, 43, ...); a receiver passes over what it does not know.
func besides(q, hash string, e ...ref.Entry) *ref.Val {
	x := 0
	for _, c := range []byte(hash) {
		x = x*31 + int(c)
	}
	if x &= 0xffff; x%3 > 0 || len(hash) == 0 {
		return ref.D(e...)
	}
	x /= 3
	more := []ref.Entry{
		ref.E("noseed", ref.I(int64(x%2))), ref.E("scrape", ref.I(1)), ref.E("want", ref.L(ref.S("n4"), ref.S("n6"))), ref.E("v", ref.I(3)), ref.E("bs", ref.I(1)),
	}
	if q == "announce_peer" {
		more = []ref.Entry{ref.E("name", ref.S("a b\r\nc")), ref.E("seed", ref.I(int64(x%2))), ref.E("addr", ref.S("1.2.3.4:5")), ref.E("v", ref.S("x")), ref.E("ip", ref.S("\x01\x02\x03\x04"))}
	}
	for i, m := range more {
		if x>>uint(i)&1 == 1 {
			e = append(e, m)
		}
	}
	sort.Slice(e, func(i, j int) bool { return e[i].K < e[j].K })
	return ref.D(e...)
}

func announce(t, id, hash string, port int, implied *int) []byte {
	e := []ref.Entry{ref.E("id", ref.S(id))}
	if implied != nil {
		e = append(e, ref.E("implied_port", ref.I(int64(*implied))))
	}
	e = append(e, ref.E("info_hash", ref.S(hash)), ref.E("port", ref.I(int64(port))), ref.E("token", ref.S("tok")))
	return query(t, "announce_peer", besides("announce_peer", hash, e...))
}

// Client sends queries and matches replies by transaction id.
type Client struct {
	S   *udpx.Sock
	Id  string
	mu  sync.Mutex
	w   map[string]chan *ref.Val
	n   int
	odd []string // datagrams that answer nothing
	dup []string
}

func newClient(ip string, port int, r *rand.Rand) *Client {
	c := &Client{Id: string(h.Bytes(r, 20)), w: map[string]chan *ref.Val{}}
	s, err := udpx.Listen(ip, port, c.on)
	if err != nil {
		h.Fatal("client socket %s: %v", ip, err)
	}
	c.S = s
	return c
}

func (c *Client) on(p udpx.Packet) {
	v, n, st := ref.Parse(string(p.B))
	c.mu.Lock()
	defer c.mu.Unlock()
	if st != ref.OK || n != len(p.B) {
		c.odd = append(c.odd, h.Hex(p.B))
		return
	}
	t, ok := v.Str("t")
	ch := c.w[t]
	if !ok || ch == nil {
		c.odd = append(c.odd, h.Hex(p.B))
		return
	}
	select {
	case ch <- v:
	default:
		c.dup = append(c.dup, h.Hex(p.B))
	}
}

func (c *Client) Tid() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	return fmt.Sprintf("%04d", c.n)
}

func (c *Client) Expect(t string) chan *ref.Val {
	ch := make(chan *ref.Val, 1)
	c.mu.Lock()
	c.w[t] = ch
	c.mu.Unlock()
	return ch
}

// Ask sends the datagram and waits for the reply with its transaction id.
func (c *Client) Ask(to *net.UDPAddr, t string, b []byte, limit time.Duration) *ref.Val {
	ch := c.Expect(t)
	c.S.Send(b, to)
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case v := <-ch:
		return v
	case <-tm.C:
		return nil
	}
}

func (c *Client) Odd() (odd, dup []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.odd...), append([]string(nil), c.dup...)
}

// ---- the discovery log

type record struct {
	kind, addr, hash string
	port             string
	raw              string
}

func (x record) key() string { return x.kind + " " + x.addr + " " + x.hash + " " + x.port }

func (p *Proc) logLines() ([]string, bool) {
	b, err := os.ReadFile(filepath.Join(p.Dir, "logs", "infohash.log"))
	if err != nil {
		return nil, true
	}
	complete := len(b) == 0 || b[len(b)-1] == '\n'
	l := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if len(b) == 0 {
		l = nil
	}
	return l, complete
}

// parseRecord reads a line of the discovery log, however its keys are ordered.
func parseRecord(s string) (record, string) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	m := map[string]interface{}{}
	if err := d.Decode(&m); err != nil {
		return record{raw: s}, "not a JSON object: " + err.Error()
	}
	var rest bytes.Buffer
	rest.ReadFrom(d.Buffered())
	if strings.TrimSpace(rest.String()) != "" {
		return record{raw: s}, "more than one JSON value on the line"
	}
	str := func(k string) string {
		if v, ok := m[k].(string); ok {
			return v
		}
		return ""
	}
	x := record{kind: str("msg"), addr: str("addr"), hash: str("infoHash"), raw: s}
	if v, ok := m["port"]; ok {
		x.port = fmt.Sprint(v)
	}
	if x.kind == "get_peers" {
		x.kind = "get_peer"
	}
	return x, ""
}

// ---- peers that serve metadata

func peerAt(ip string, port int) *peersim.Server {
	s, err := peersim.Listen(net.JoinHostPort(ip, strconv.Itoa(port)))
	if err != nil {
		h.Fatal("peer at %s:%d: %v", ip, port, err)
	}
	return s
}

func hexs(s string) string { return fmt.Sprintf("%x", s) }

func ip4(a, b, c, d int) string { return fmt.Sprintf("%d.%d.%d.%d", a, b, c, d) }
