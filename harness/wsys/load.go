package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/h"
	"verifharness/peersim"
	"verifharness/ref"
	"verifharness/udpx"
)

// ---- hostile datagrams

func oddVal(r *rand.Rand, depth int) *ref.Val {
	switch r.Intn(9) {
	case 0:
		return ref.I([]int64{0, -1, 1, 1<<63 - 1, -1 << 63, 1 << 32, 65536}[r.Intn(7)])
	case 1:
		return ref.S("")
	case 2:
		return ref.S(string(h.Bytes(r, r.Intn(60))))
	case 3:
		return ref.S(string(h.Bytes(r, 20)))
	case 4:
		return ref.L()
	case 5:
		return ref.D()
	case 6:
		if depth > 0 {
			return ref.L(oddVal(r, depth-1), oddVal(r, depth-1))
		}
	case 7:
		if depth > 0 {
			return ref.D(ref.E("id", oddVal(r, depth-1)), ref.E("nodes", oddVal(r, depth-1)), ref.E("token", oddVal(r, depth-1)))
		}
	}
	return ref.S(string(h.Bytes(r, 26*r.Intn(3))))
}

// twist changes something somewhere in the message.
func twist(r *rand.Rand, v *ref.Val) *ref.Val {
	if v.Kind == ref.Dict && len(v.D) > 0 {
		c := *v
		c.D = append([]ref.Entry(nil), v.D...)
		i := r.Intn(len(c.D))
		switch r.Intn(6) {
		case 0:
			c.D = append(c.D[:i], c.D[i+1:]...)
		case 1, 2:
			c.D[i].V = oddVal(r, 2)
		case 3:
			c.D[i].K = string(h.Bytes(r, r.Intn(6)))
		default:
			c.D[i].V = twist(r, c.D[i].V)
		}
		return &c
	}
	return oddVal(r, 2)
}

func message(r *rand.Rand) *ref.Val {
	t := string(h.Bytes(r, 1+r.Intn(4)))
	if r.Intn(3) == 0 {
		t = strconv.Itoa(r.Intn(3000)) // ids the crawler may have used
	}
	id := ref.S(string(h.Bytes(r, 20)))
	q := func(name string, e ...ref.Entry) *ref.Val {
		return ref.D(ref.E("a", ref.D(append([]ref.Entry{ref.E("id", id)}, e...)...)), ref.E("q", ref.S(name)), ref.E("t", ref.S(t)), ref.E("y", ref.S("q")))
	}
	hash := ref.E("info_hash", ref.S(string(h.Bytes(r, 20))))
	switch r.Intn(9) {
	case 0:
		return q("ping")
	case 1:
		return q("find_node", ref.E("target", ref.S(string(h.Bytes(r, 20)))))
	case 2:
		return q("get_peers", hash)
	case 3:
		return q("announce_peer", hash, ref.E("port", ref.I(int64(1+r.Intn(9)))), ref.E("token", ref.S("x")))
	case 4:
		return q("announce_peer", ref.E("implied_port", ref.I(1)), hash, ref.E("port", ref.I(int64(r.Intn(65536)))), ref.E("token", ref.S("x")))
	case 5, 6:
		return ref.D(ref.E("r", ref.D(ref.E("id", id), ref.E("nodes", ref.S(string(h.Bytes(r, r.Intn(300))))))), ref.E("t", ref.S(t)), ref.E("y", ref.S("r")))
	case 7:
		return ref.D(ref.E("r", ref.D(ref.E("id", id), ref.E("token", ref.S("a")), ref.E("values", ref.L(ref.S(string(h.Bytes(r, r.Intn(9)))), ref.I(4), ref.S(""))))), ref.E("t", ref.S(t)), ref.E("y", ref.S("r")))
	}
	return ref.D(ref.E("e", ref.L(ref.I(201), ref.S("boo"))), ref.E("t", ref.S(t)), ref.E("y", ref.S("e")))
}

// hostileDatagram draws one, and names its kind.
func hostileDatagram(r *rand.Rand) ([]byte, string) {
	b := ref.Encode(message(r))
	switch k := r.Intn(16); k {
	case 0:
		return h.Bytes(r, r.Intn(1500)), "random"
	case 1:
		return b[:r.Intn(len(b))], "cut"
	case 2:
		c := append([]byte(nil), b...)
		for i := r.Intn(4); i >= 0; i-- {
			c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
		}
		return c, "bits flipped"
	case 3:
		i := r.Intn(len(b))
		return append(append(append([]byte{}, b[:i]...), h.Bytes(r, 1+r.Intn(8))...), b[i:]...), "bytes inserted"
	case 4:
		return bytes.Repeat([]byte{"dl"[r.Intn(2)]}, 1+r.Intn(65000)), "nesting"
	case 5:
		return bytes.Repeat([]byte("d1:a"), 1+r.Intn(16000)), "dictionary nesting"
	case 6:
		return []byte("d1:ad2:id20:aaaaaaaaaaaaaaaaaaaae1:q4:ping1:t" + strconv.Itoa(1+r.Intn(1<<30)) + ":x1:y1:qe"), "huge length"
	case 7:
		return []byte("d1:t" + []string{"-1", "99999999999999999999", "0", "007", "9223372036854775807", "-9223372036854775808"}[r.Intn(6)] + ":x1:y1:qe"), "odd length"
	case 8:
		return append(ref.Encode(message(r)), h.Bytes(r, 1+r.Intn(1200))...), "trailing bytes"
	case 9:
		// at and around what the receiver reads
		n := 1000 + r.Intn(60)
		return ref.Encode(ref.D(ref.E("a", ref.D(ref.E("id", ref.S(string(h.Bytes(r, 20)))))), ref.E("q", ref.S("ping")), ref.E("t", ref.S(string(h.Bytes(r, n-53)))), ref.E("y", ref.S("q")))), "big"
	case 10:
		return h.Bytes(r, 60000+r.Intn(5000)), "huge"
	case 11:
		return []byte{}, "empty"
	default:
		v := message(r)
		for i := r.Intn(3); i >= 0; i-- {
			v = twist(r, v)
		}
		return ref.Encode(v), "twisted"
	}
}

// ---- hostile DHT nodes

func compactAt(id string, ip string, port int) string {
	x := net.ParseIP(ip).To4()
	return id + string(x) + string([]byte{byte(port >> 8), byte(port)})
}

// hostileNode answers find_node queries with what nobody should send.
func hostileNode(p *int64, r *rand.Rand, crawlerPort func() int, friends func() []int) *udpx.Sock {
	var s *udpx.Sock
	var mu sync.Mutex
	var err error
	ready := make(chan struct{})
	s, err = udpx.Listen("127.0.0.1", 0, func(pk udpx.Packet) {
		<-ready
		v, _, st := ref.Parse(string(pk.B))
		if st != ref.OK || v.Kind != ref.Dict {
			return
		}
		if y, _ := v.Str("y"); y != "q" {
			return
		}
		t, _ := v.Str("t")
		mu.Lock()
		defer mu.Unlock()
		atomic.AddInt64(p, 1)
		id := string(h.Bytes(r, 20))
		send := func(b []byte) { s.Send(b, pk.From) }
		resp := func(body *ref.Val) []byte {
			return ref.Encode(ref.D(ref.E("r", body), ref.E("t", ref.S(t)), ref.E("y", ref.S("r"))))
		}
		nodes := func(x *ref.Val) []byte { return resp(ref.D(ref.E("id", ref.S(id)), ref.E("nodes", x))) }
		list := func(k int) string {
			l := ""
			for i := 0; i < k; i++ {
				switch r.Intn(14) {
				case 0:
					l += compactAt(string(h.Bytes(r, 20)), "127.0.0.1", 0)
				case 1:
					l += compactAt(string(h.Bytes(r, 20)), "255.255.255.255", 6881)
				case 2:
					l += compactAt(string(h.Bytes(r, 20)), "0.0.0.0", 1+r.Intn(65535))
				case 3:
					l += compactAt(string(h.Bytes(r, 20)), "224.0.0.1", 6881)
				case 4:
					l += compactAt(string(h.Bytes(r, 20)), "127.0.0.1", crawlerPort())
				case 5:
					l += compactAt(crawlerId, "127.0.0.1", crawlerPort())
				case 6:
					l += compactAt(strings.Repeat("\x00", 20), "127.0.0.1", 1+r.Intn(65535))
				case 7:
					l += compactAt(withPrefix(r, crawlerId, r.Intn(160)), "240.1.2.3", 1)
				case 8, 9, 10, 11:
					// others like it, so that the queries go on
					if f := friends(); len(f) > 0 {
						l += compactAt(withPrefix(r, crawlerId, r.Intn(60)), "127.0.0.1", f[r.Intn(len(f))])
					}
				default:
					l += compactAt(string(h.Bytes(r, 20)), fmt.Sprintf("127.%d.%d.%d", r.Intn(256), r.Intn(256), 1+r.Intn(250)), 1+r.Intn(65535))
				}
			}
			return l
		}
		more := ""
		for _, f := range friends() {
			more += compactAt(withPrefix(r, crawlerId, r.Intn(60)), "127.0.0.1", f)
		}
		switch r.Intn(14) {
		case 0:
			send(nodes(ref.S(list(5) + string(h.Bytes(r, 1+r.Intn(25))) + more)))
		case 1:
			send(nodes(ref.I(7)))
		case 2:
			send(nodes(ref.L(ref.S(list(1)), ref.I(3))))
		case 3:
			send(nodes(ref.D(ref.E("a", ref.S("b")))))
		case 4:
			send(resp(ref.S("no dictionary")))
		case 5:
			send(resp(ref.L()))
		case 6:
			send(ref.Encode(ref.D(ref.E("t", ref.S(t)), ref.E("y", ref.S("r")))))
		case 7:
			send(ref.Encode(ref.D(ref.E("e", oddVal(r, 2)), ref.E("t", ref.S(t)), ref.E("y", ref.S("e")))))
		case 8:
			send(ref.Encode(ref.D(ref.E("e", ref.L(ref.I(201))), ref.E("t", ref.S(t)), ref.E("y", ref.S("e")))))
		case 9:
			for i := 0; i < 50; i++ {
				send(nodes(ref.S(list(30))))
			}
		case 10:
			b := nodes(ref.S(list(10)))
			send(b[:r.Intn(len(b))])
		case 11:
			send(ref.Encode(ref.D(ref.E("r", ref.D(ref.E("id", oddVal(r, 1)), ref.E("nodes", ref.S(list(20))))), ref.E("t", ref.S(t)), ref.E("y", ref.S("r")))))
		case 12:
			send(ref.Encode(ref.D(ref.E("r", ref.D(ref.E("id", ref.S(id)), ref.E("nodes", ref.S(list(4000))))), ref.E("t", ref.S(t)), ref.E("y", ref.S("r")))))
		default:
		}
		send(nodes(ref.S(list(r.Intn(20)) + more)))
	})
	if err != nil {
		h.Fatal("hostile node: %v", err)
	}
	close(ready)
	return s
}

// ---- liveness

// fetches tells whether announcing a well-behaved peer leads to a stored file.
func fetches(p *Proc, r *rand.Rand, limit time.Duration) bool {
	srv := peerAt("127.0.0.1", 0)
	defer srv.Close()
	c := newClient("127.0.0.1", 0, r)
	defer c.S.Close()
	for t0 := time.Now(); time.Since(t0) < limit; {
		meta := h.Bytes(r, 1+r.Intn(40000))
		hash := peersim.Hash(meta)
		srv.Plan(hash, multi(r, meta))
		t := c.Tid()
		c.Ask(p.Addr, t, announce(t, c.Id, hash, srv.Port(), nil), 2*time.Second)
		f := filepath.Join(p.Dir, "torrent", fmt.Sprintf("%x.torrent", hash))
		if h.Wait(5*time.Second, func() bool {
			if p.exited() {
				return true
			}
			b, err := os.ReadFile(f)
			return err == nil && bytes.Equal(b, meta)
		}) {
			return !p.exited()
		}
	}
	return false
}

func alive(p *Proc, r *rand.Rand, doing string) bool {
	R := h.R
	if !p.Pings(30 * time.Second) {
		if p.Alive(doing) {
			R.Violate("unanswering", "the crawler runs but answers no ping any more after "+doing, p.Dump())
		}
		return false
	}
	if !fetches(p, r, 60*time.Second) {
		if p.Alive(doing) {
			R.Violate("unfetching", "the crawler runs but fetches nothing from a well-behaved peer any more after "+doing, p.Dump())
		}
		return false
	}
	R.Count("liveness_probes_passed", 1)
	return p.Alive(doing)
}

func rss(p *Proc) int64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/statm", p.cmd.Process.Pid))
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// ---- A01

func a01() {
	R := h.R
	R.Rule = "mutated, random, nested and oversized datagrams; DHT nodes answering find_node with malformed and hostile contents; peers misbehaving in every catalogued way; announcement floods beyond the queue; distinct = kind of datagram or peer x round; oracle: the process runs, answers pings and stores what a well-behaved peer serves, after every phase"
	stop := h.Guard("hang", "hostile workload", time.Duration(h.N(400, 3400))*time.Second)
	defer stop()
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for round := k; round < h.N(16, 120) && R.Bad() < 2; round += 4 {
				a01round(round)
			}
		}(k)
	}
	wg.Wait()
}

func a01round(round int) {
	R := h.R
	r := h.Rand("a01", round)
	conf := Conf{Workers: []int{64, 2, 1, 300}[round%4], Fetchers: []int{20, 4, 60, 10}[round%4], Queue: []int{50, 5, 1000, 200}[round%4],
		Level: []string{"Error", "Info", "Debug", "Panic"}[(round/2)%4]}
	// hostile nodes to start from
	var answered int64
	var port int64
	var socks []*udpx.Sock
	var fr []int
	var fmu sync.Mutex
	friends := func() []int {
		fmu.Lock()
		defer fmu.Unlock()
		return append([]int(nil), fr...)
	}
	for i := 0; i < 6; i++ {
		n := hostileNode(&answered, rand.New(rand.NewSource(r.Int63())), func() int { return int(atomic.LoadInt64(&port)) }, friends)
		socks = append(socks, n)
		if i < 3 {
			conf.Bootstrap = append(conf.Bootstrap, n.Addr.String())
		}
		fmu.Lock()
		fr = append(fr, n.Addr.Port)
		fmu.Unlock()
	}
	defer func() {
		for _, s := range socks {
			s.Close()
		}
	}()
	p := start(conf)
	defer p.Kill()
	atomic.StoreInt64(&port, int64(p.Port))
	time.Sleep(time.Second)
	if !alive(p, r, "hostile answers of DHT nodes") {
		return
	}
	R.Eval(fmt.Sprintf("nodes|%d", round))
	R.Count("hostile_node_answers", atomic.LoadInt64(&answered))
	// datagrams
	for burst := 0; burst < h.N(4, 20); burst++ {
		var w sync.WaitGroup
		for k := 0; k < 4; k++ {
			w.Add(1)
			seed := r.Int63()
			go func() {
				defer w.Done()
				r := rand.New(rand.NewSource(seed))
				ip, to := "127.0.0.1", p.Addr
				if have6 && r.Intn(4) == 0 {
					ip, to = "::1", to6(p.Port)
				}
				s, err := udpx.Listen(ip, 0, nil)
				if err != nil {
					h.Fatal("%v", err)
				}
				defer s.Close()
				for i := 0; i < 1200; i++ {
					b, kind := hostileDatagram(r)
					s.Send(b, to)
					R.Eval("datagram|" + kind)
					if i%40 == 39 {
						time.Sleep(2 * time.Millisecond)
					}
				}
			}()
		}
		w.Wait()
		R.Count("hostile_datagrams", 4800)
		if !alive(p, r, "hostile datagrams") {
			return
		}
	}
	// replies to a source that refuses them, then goes away
	if !refusedSender(p, r) || !alive(p, r, "senders that are gone when the reply comes") {
		return
	}
	// peers
	srv := peerAt("127.0.0.1", 0)
	defer srv.Close()
	c := newClient("127.0.0.1", 0, r)
	defer c.S.Close()
	list := peersim.Hostile()
	for pass := 0; pass < h.N(1, 4); pass++ {
		n := 0
		for i, x := range list {
			if x.Heavy && (i+round)%4 != 0 {
				continue
			}
			hash := string(h.Bytes(r, 20))
			srv.Plan(hash, x.Script(rand.New(rand.NewSource(r.Int63()))))
			t := c.Tid()
			c.Ask(p.Addr, t, announce(t, c.Id, hash, srv.Port(), nil), 3*time.Second)
			R.Eval(fmt.Sprintf("peer|%s|%d", x.Name, round))
			R.Count("hostile_peers", 1)
			n++
			if !p.Alive("fetching from a peer that: " + x.Name) {
				return
			}
			if n%6 == 0 {
				time.Sleep(20 * time.Millisecond)
			}
		}
		if !alive(p, r, "hostile peers") {
			return
		}
	}
	// peers nobody can connect to
	for i := 0; i < 300; i++ {
		hash := string(h.Bytes(r, 20))
		c.S.Send(announce(c.Tid(), c.Id, hash, []int{0, 1, 65535, 65536, -1, 1 << 40, p.Port}[i%7], nil), p.Addr)
		if i%30 == 29 {
			time.Sleep(2 * time.Millisecond)
		}
	}
	if !alive(p, r, "announcements of impossible ports") {
		return
	}
	// more announcements than the queue holds, of peers that are silent
	if !flood(p, conf, r) {
		return
	}
	R.Max("resident_mib", rss(p)>>20)
	R.Eval(fmt.Sprintf("flood|%d", round))
}

// refusedSender sends queries from sockets that are closed at once.
func refusedSender(p *Proc, r *rand.Rand) bool {
	for i := 0; i < 200; i++ {
		s, err := net.DialUDP("udp", nil, p.Addr)
		if err != nil {
			h.Fatal("%v", err)
		}
		for k := 0; k < 3; k++ {
			s.Write(ref.Encode(message(r)))
		}
		s.Close()
	}
	return p.Alive("answering senders that are gone")
}

// flood announces silent peers beyond the queue; queries must still be answered
// while every fetcher is busy and the queue is full.
func flood(p *Proc, conf Conf, r *rand.Rand) bool {
	R := h.R
	srv := peerAt("127.0.0.1", 0)
	defer srv.Close()
	srv.Default = func(c *peersim.Conn) { c.Gone(30 * time.Second) }
	c := newClient("127.0.0.1", 0, r)
	defer c.S.Close()
	n := conf.Queue + 3*conf.Fetchers + 2*conf.Workers + 300
	for i := 0; i < n; i++ {
		c.S.Send(announce(c.Tid(), c.Id, string(h.Bytes(r, 20)), srv.Port(), nil), p.Addr)
		if i%25 == 24 {
			time.Sleep(3 * time.Millisecond)
		}
	}
	R.Count("flood_announcements", int64(n))
	// at once, not when the fetches have ended
	ok := 0
	pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		h.Fatal("%v", err)
	}
	defer pc.Close()
	worst := time.Duration(0)
	for i := 0; i < 10; i++ {
		t := time.Now()
		for k := 0; k < 200 && !p.exited(); k++ {
			if pingOnce(pc, p.Addr, 100*time.Millisecond) {
				ok++
				break
			}
		}
		if d := time.Since(t); d > worst {
			worst = d
		}
	}
	R.Max("longest_wait_for_a_ping_ms_during_flood", worst.Milliseconds())
	if ok < 10 && p.Alive("flooded with announcements") {
		R.Violate("unanswering", fmt.Sprintf("with its queue of %d and %d fetchers full of silent peers the crawler answered %d of 10 pings, tried for 20 seconds each", conf.Queue, conf.Fetchers, ok), p.Dump())
		return false
	}
	srv.Close()
	return alive(p, r, "a flood of announcements")
}

// ---- mixed load, for S01 and R01

type load struct {
	stop chan struct{}
	wg   sync.WaitGroup
	n    int64
	srv  *peersim.Server
	c    []*udpx.Sock
}

func (l *load) halted() bool {
	select {
	case <-l.stop:
		return true
	default:
		return false
	}
}

func (l *load) Stop() {
	close(l.stop)
	l.wg.Wait()
	l.srv.Close()
}

// mixed keeps queries, announcements of good, silent and hostile peers, and
// garbage coming until stopped. kinds selects among them.
func mixed(p *Proc, r *rand.Rand, kinds string) *load {
	l := &load{stop: make(chan struct{}), srv: peerAt("127.0.0.1", 0)}
	list := peersim.Hostile()
	for k := range kinds {
		kind := kinds[k]
		seed := r.Int63()
		l.wg.Add(1)
		go func() {
			defer l.wg.Done()
			r := rand.New(rand.NewSource(seed))
			s, err := udpx.Listen("127.0.0.1", 0, nil)
			if err != nil {
				h.Fatal("%v", err)
			}
			defer s.Close()
			for i := 0; !l.halted(); i++ {
				switch kind {
				case 'q':
					v := variant(r, string(h.Bytes(r, 20)))
					s.Send(query(tidOf(r, i), v.q, v.a), p.Addr)
				case 'x':
					b, _ := hostileDatagram(r)
					s.Send(b, p.Addr)
				case 'g':
					meta := h.Bytes(r, 1+r.Intn(100000))
					hash := peersim.Hash(meta)
					l.srv.Plan(hash, multi(r, meta))
					for k := 1 + r.Intn(3); k > 0; k-- {
						s.Send(announce(tidOf(r, i), string(h.Bytes(r, 20)), hash, l.srv.Port(), nil), p.Addr)
					}
					time.Sleep(2 * time.Millisecond)
				case 's':
					hash := string(h.Bytes(r, 20))
					l.srv.Plan(hash, func(c *peersim.Conn) { c.Gone(20 * time.Second) })
					s.Send(announce(tidOf(r, i), string(h.Bytes(r, 20)), hash, l.srv.Port(), nil), p.Addr)
					time.Sleep(time.Millisecond)
				case 'h':
					hash := string(h.Bytes(r, 20))
					l.srv.Plan(hash, list[r.Intn(len(list))].Script(rand.New(rand.NewSource(r.Int63()))))
					s.Send(announce(tidOf(r, i), string(h.Bytes(r, 20)), hash, l.srv.Port(), nil), p.Addr)
					time.Sleep(5 * time.Millisecond)
				}
				atomic.AddInt64(&l.n, 1)
				if i%20 == 19 {
					time.Sleep(time.Millisecond)
				}
			}
		}()
	}
	return l
}

// ---- S01

func s01() {
	R := h.R
	R.Rule = "SIGINT or SIGTERM, once or repeated, at random moments from the first answered query on, idle, under query, garbage and announcement floods, with fetches from serving, silent and hostile peers in progress, during a crawl; distinct = load x signal x moment; oracle: exit status, time to exit in scheduled ticks, the port bound again at once"
	stop := h.Guard("hang", "shutdown", time.Duration(h.N(280, 3000))*time.Second)
	defer stop()
	loads := []string{"", "q", "qqxx", "g", "sss", "gsqx", "gghh", "", "qgsxh", "s"}
	var wg sync.WaitGroup
	workers := 4
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < h.N(160, 1500) && R.Bad() < 3; i += workers {
				s01once(i, loads[i%len(loads)])
			}
		}(k)
	}
	for i := 0; i < h.N(8, 60) && R.Bad() < 3; i++ {
		s01early(i)
	}
	wg.Wait()
}

// s01early signals while the program is still busy with its first queries: it
// has very many bootstrap nodes.
func s01early(i int) {
	R := h.R
	r := h.Rand("s01early", i)
	var got int32
	first := make(chan struct{})
	sink, err := udpx.Listen("127.0.0.1", 0, func(udpx.Packet) {
		if atomic.AddInt32(&got, 1) == 1 {
			close(first)
		}
	})
	if err != nil {
		h.Fatal("%v", err)
	}
	defer sink.Close()
	n := 40000
	conf := Conf{Level: []string{"Error", "Panic"}[r.Intn(2)], Port: udpx.FreePort()}
	for k := 0; k < n; k++ {
		conf.Bootstrap = append(conf.Bootstrap, sink.Addr.String())
	}
	dir := newDir()
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "conf", "config.json"), conf.json(), 0644)
	p := launchConf(dir, conf)
	p.Port, p.Addr = conf.Port, udpx.Loop(conf.Port)
	select {
	case <-first:
	case <-time.After(20 * time.Second):
		if p.exited() {
			R.Unclear("the program ended before its first query: %s", p.status())
		} else {
			R.Violate("start", "no bootstrap node was asked within 20 seconds", trim(p.Stderr()))
		}
		p.Kill()
		return
	}
	time.Sleep(time.Duration(r.Intn(150)) * time.Millisecond)
	if !p.Alive("contacting its bootstrap nodes") {
		return
	}
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[r.Intn(2)]
	sent := atomic.LoadInt32(&got)
	p.Signal(sig)
	what := fmt.Sprintf("%v while contacting bootstrap nodes (%d of %d seen)", sig, sent, n)
	if !h.Wait(grace+margin, p.exited) {
		R.Violate("no-exit", what+": not ended", p.Dump())
		p.Kill()
		return
	}
	if p.err != nil {
		R.Violate("status", what+": "+p.status(), trim(p.Stderr()))
	}
	if !udpFree(p.Port) {
		R.Violate("port-held", what+": the port cannot be bound again", nil)
	}
	if int(sent) < n/2 {
		R.Count("signals_while_bootstrapping", 1)
	}
	R.Eval(fmt.Sprintf("early|%v|%d", sig, sent/4000))
}

const (
	grace  = 5 * time.Second
	margin = 5 * time.Second
)

func s01once(i int, kinds string) {
	R := h.R
	r := h.Rand("s01", i)
	conf := Conf{Level: []string{"Error", "Info", "Debug", "Trace"}[r.Intn(4)], Workers: []int{64, 1, 300}[r.Intn(3)], Fetchers: []int{30, 2, 200}[r.Intn(3)], Queue: []int{5, 1000}[r.Intn(2)]}
	var d *dhtNet
	if i%5 == 4 {
		d = buildNet(r, 20, 4, 0)
		defer d.Close()
		conf.Bootstrap = []string{d.boot.sock.Addr.String()}
	}
	ignored := ""
	if i%7 == 3 {
		// as a shell starts what it runs in the background, or nohup does
		ignored = []string{"INT", "INT QUIT", "HUP", "INT HUP"}[i/7%4]
		conf.Wrap = []string{"/bin/sh", "-c", "trap '' " + ignored + `; exec "$0" "$@"`}
	}
	p := start(conf)
	var l *load
	if kinds != "" {
		l = mixed(p, r, kinds)
	}
	var delay time.Duration
	switch r.Intn(4) {
	case 0:
	case 1:
		delay = time.Duration(r.Intn(20)) * time.Millisecond
	default:
		delay = time.Duration(r.Intn(1500)) * time.Millisecond
	}
	time.Sleep(delay)
	if !p.Alive("under load " + kinds) {
		if l != nil {
			l.Stop()
		}
		return
	}
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[r.Intn(2)]
	again := r.Intn(2) == 0
	if ignored != "" {
		sig, again = syscall.SIGTERM, false
		R.Count("started_with_signals_ignored", 1)
	}
	p.Signal(sig)
	t0 := time.Now()
	if again {
		p.Signal([]syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[r.Intn(2)])
		if r.Intn(2) == 0 {
			// an impatient user
			for k := 1 + r.Intn(200); k > 0 && !p.exited(); k-- {
				p.Signal([]syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[r.Intn(2)])
				time.Sleep(time.Duration(r.Intn(150)) * time.Microsecond)
			}
			R.Count("bursts_of_signals", 1)
		}
	}
	what := fmt.Sprintf("%v after %v under load %q", sig, delay, kinds)
	done := h.Wait(grace+margin, p.exited)
	took := time.Since(t0)
	if !done {
		R.Violate("no-exit", fmt.Sprintf("%s: not ended %v after the signal", what, took), p.Dump())
		if l != nil {
			l.Stop()
		}
		return
	}
	if p.err != nil {
		R.Violate("status", fmt.Sprintf("%s: %s", what, p.status()), trim(p.Stderr()))
	}
	if !udpFree(p.Port) {
		// somebody else may have got it, but nobody else was told of it
		R.Violate("port-held", what+": the port cannot be bound again", nil)
	}
	if l != nil {
		R.Count("load_steps", atomic.LoadInt64(&l.n))
		l.Stop()
	}
	R.Max("longest_exit_ms", took.Milliseconds())
	R.Eval(fmt.Sprintf("%s|%v|%d|%v", kinds, sig, delay/(50*time.Millisecond), again))
	os.RemoveAll(p.Dir)
}

// ---- R01

func r01() {
	R := h.R
	R.Rule = "the whole program built with the race detector under mixed queries, garbage, announcements of serving, silent and hostile peers and a crawl, ended by a signal under load; distinct = load x round; oracle: the race detector"
	stop := h.Guard("hang", "race run", time.Duration(h.N(200, 3000))*time.Second)
	defer stop()
	for i := 0; i < h.N(4, 40) && R.Bad() < 3; i++ {
		r := h.Rand("r01", i)
		d := buildNet(r, 25, 9, i%4)
		// (a record that is printed orders the accesses before and after it: most
		// runs print little)
		// nodes that answer wrongly, with contacts that nothing can be sent to
		var answered, port int64
		var odd []*udpx.Sock
		var fr []int
		var fmu sync.Mutex
		friends := func() []int {
			fmu.Lock()
			defer fmu.Unlock()
			return append([]int(nil), fr...)
		}
		boots := []string{d.boot.sock.Addr.String()}
		for k := 0; k < 6; k++ {
			n := hostileNode(&answered, rand.New(rand.NewSource(r.Int63())), func() int { return int(atomic.LoadInt64(&port)) }, friends)
			odd = append(odd, n)
			boots = append(boots, n.Addr.String())
			fmu.Lock()
			fr = append(fr, n.Addr.Port)
			fmu.Unlock()
		}
		// the crawl goes on while queries are answered
		d.slow = time.Duration(200+300*(i%2)) * time.Millisecond
		p := start(Conf{Level: []string{"Panic", "Debug", "Panic", "Info"}[i%4], Workers: []int{64, 4, 12, 30}[i%4], Fetchers: 40, Queue: []int{1000, 10}[i%2], Bootstrap: boots})
		atomic.StoreInt64(&port, int64(p.Port))
		l := mixed(p, r, []string{"qxgsh", "qqqgg", "xxgh", "gggs"}[i%4])
		time.Sleep(time.Duration(h.N(3500, 8000)) * time.Millisecond)
		if !p.Alive("under load") {
			l.Stop()
			d.Close()
			return
		}
		p.Signal(syscall.SIGTERM)
		if !h.Wait(30*time.Second, p.exited) {
			R.Violate("no-exit", "the program did not end after SIGTERM", p.Dump())
		}
		R.Count("load_steps", atomic.LoadInt64(&l.n))
		R.Count("program_runs", 1)
		R.Count("hostile_node_answers", atomic.LoadInt64(&answered))
		for _, n := range odd {
			n.Close()
		}
		l.Stop()
		d.Close()
		R.Eval(fmt.Sprintf("program|%d", i))
		os.RemoveAll(p.Dir)
	}
}
