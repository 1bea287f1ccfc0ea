package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifharness/h"
	"verifharness/peersim"
	"verifharness/ref"
	"verifharness/udpx"
)

// ---- L01

// fds counts the descriptors the process holds, by kind.
func fds(p *Proc) (n int, kinds map[string]int) {
	dir := fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid)
	l, err := os.ReadDir(dir)
	if err != nil {
		return -1, nil
	}
	kinds = map[string]int{}
	for _, e := range l {
		t, err := os.Readlink(dir + "/" + e.Name())
		if err != nil {
			continue
		}
		if i := strings.Index(t, ":["); i > 0 {
			t = t[:i]
		}
		kinds[t]++
		n++
	}
	return
}

func threads(p *Proc) int {
	l, _ := os.ReadDir(fmt.Sprintf("/proc/%d/task", p.cmd.Process.Pid))
	return len(l)
}

var profHTTP = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

func prof(path string) (string, error) {
	r, err := profHTTP.Get("http://127.0.0.1:10080/debug/pprof/" + path)
	if err != nil {
		return "", err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return string(b), err
}

var totalRe = regexp.MustCompile(`total (\d+)`)
var heapRe = regexp.MustCompile(`(?m)^# HeapAlloc = (\d+)`)

// goroutines counts the crawler's goroutines, less those that serve the profile.
func goroutines() (int, string) {
	s, err := prof("goroutine?debug=1")
	if err != nil {
		return -1, err.Error()
	}
	m := totalRe.FindStringSubmatch(s)
	if m == nil {
		return -1, s
	}
	n, _ := strconv.Atoi(m[1])
	for _, b := range strings.Split(s, "\n\n") {
		if strings.Contains(b, "net/http.(*conn)") || strings.Contains(b, "net/http.(*connReader)") {
			k, _ := strconv.Atoi(strings.Fields(strings.TrimSpace(b[strings.LastIndex("\n"+b, "goroutine profile")+1:]))[0])
			if i := strings.Index(b, " @ "); i > 0 {
				f := strings.Fields(b[:i])
				k, _ = strconv.Atoi(f[len(f)-1])
			}
			n -= k
		}
	}
	return n, s
}

func heap() int64 {
	s, err := prof("heap?gc=1&debug=1")
	if err != nil {
		return -1
	}
	m := heapRe.FindStringSubmatch(s)
	if m == nil {
		return -1
	}
	n, _ := strconv.ParseInt(m[1], 10, 64)
	return n
}

type level struct {
	Fds, Goroutines, Threads int
	Heap                     int64
	kinds                    map[string]int
	dump                     string
}

func l01() {
	R := h.R
	R.Rule = "one crawler through equal rounds of queries, invalid and hostile datagrams, unasked-for responses, and announcements of serving, lying, misbehaving, silent and unreachable peers; after each round, once idle, its descriptors, goroutines and live heap are read; distinct = round; oracle: the level after the last round is that after the first"
	stop := h.Guard("hang", "leak run", time.Duration(h.N(300, 3000))*time.Second)
	defer stop()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); l01run(0, true) }()
	go func() { defer wg.Done(); l01run(1, false) }()
	wg.Wait()
	if R.Bad() == 0 {
		l01full()
	}
}

// l01full: far more announcements than the queue holds, of peers that say
// nothing. Those without room are forgotten, so a few seconds after the last
// one nothing is left of them.
func l01full() {
	R := h.R
	const fetchers, queue = 50, 100
	p := start(Conf{Workers: 32, Fetchers: fetchers, Queue: queue, Level: "Error", Prof: true})
	defer p.Kill()
	srv := peerAt("127.0.0.1", 0)
	defer srv.Close()
	s, err := udpx.Listen("127.0.0.1", 0, nil)
	if err != nil {
		h.Fatal("%v", err)
	}
	defer s.Close()
	r := h.Rand("l01full")
	base := h.N(20000, 60000)
	if !p.Alive("before announcements") {
		return
	}
	before, _ := idle(p, nil, true)
	for i := 0; i < base; i++ {
		hash := string(h.Bytes(r, 20))
		srv.Plan(hash, func(c *peersim.Conn) { c.Gone(10 * time.Second) })
		s.Send(announce(tidOf(r, i), string(h.Bytes(r, 20)), hash, srv.Port(), nil), p.Addr)
		if i%40 == 0 {
			for k := 0; k < 1000 && udpx.Queued(p.Port) > 60000; k++ {
				time.Sleep(time.Millisecond)
			}
		}
	}
	if !p.Alive("with a full queue") {
		return
	}
	after, ok := idle(p, &before, true)
	if !ok {
		p.Alive("counting its resources")
		return
	}
	R.Eval("full queue")
	R.Count("announcements_for_a_full_queue", int64(base))
	R.Sample(fmt.Sprintf("full queue: goroutines %d before, %d after; descriptors %d, %d", before.Goroutines, after.Goroutines, before.Fds, after.Fds))
	if before.Goroutines >= 0 && after.Goroutines > before.Goroutines+100 {
		R.Violate("goroutines-full-queue", fmt.Sprintf("%d announcements of silent peers came to a queue of %d; 25 seconds later %d goroutines run, %d before", base, queue, after.Goroutines, before.Goroutines), after.dump)
	}
	if after.Fds > before.Fds+slackFds+20 {
		R.Violate("descriptors-full-queue", fmt.Sprintf("%d announcements of silent peers came to a queue of %d; 25 seconds later %d descriptors are open, %d before", base, queue, after.Fds, before.Fds), after.dump)
	}
}

// slack allows for what the runtime itself holds.
const (
	slackFds        = 8
	slackGoroutines = 8
	slackThreads    = 40
	slackHeap       = 640 << 10
)

func l01run(k int, profiled bool) {
	R := h.R
	r := h.Rand("l01", k)
	c := Conf{Workers: []int{64, 3}[k], Fetchers: []int{40, 25}[k], Queue: []int{20000, 15000}[k], Level: "Error", Prof: profiled,
		// nothing is given back by the collector, so a lost descriptor stays lost
		Env: []string{"GOGC=off", "GOMEMLIMIT=3GiB"}}
	p := start(c)
	defer p.Kill()
	rounds := h.N(6, 30)
	var ls []level
	for i := 0; i < rounds; i++ {
		if !l01traffic(p, r, k) {
			return
		}
		var base *level
		if len(ls) > 1 {
			base = &ls[1]
		}
		l, ok := idle(p, base, profiled)
		if !ok {
			p.Alive("counting its resources")
			return
		}
		ls = append(ls, l)
		R.Eval(fmt.Sprintf("round|%d|%d", k, i))
		R.Max(fmt.Sprintf("heap_round_%d", i), l.Heap)
		R.Sample(fmt.Sprintf("run %d round %d: descriptors %d, goroutines %d, threads %d, heap %d", k, i, l.Fds, l.Goroutines, l.Threads, l.Heap))
	}
	// the first two rounds fill pools, tables and caches
	a, z := ls[1], ls[len(ls)-1]
	n := len(ls) - 2
	R.Max("descriptors_held_idle", int64(z.Fds))
	if z.Fds > a.Fds+slackFds {
		R.Violate("descriptors", fmt.Sprintf("idle, the crawler held %d descriptors after round 2 and %d after %d more rounds of the same traffic", a.Fds, z.Fds, n), fmt.Sprintf("%v\n%v\n%v", a.kinds, z.kinds, ls))
	}
	if z.Threads > a.Threads+slackThreads {
		R.Violate("threads", fmt.Sprintf("idle, the crawler had %d threads after round 2 and %d after %d more rounds of the same traffic", a.Threads, z.Threads, n), fmt.Sprint(ls))
	}
	if profiled && a.Goroutines >= 0 && z.Goroutines >= 0 {
		R.Max("goroutines_idle", int64(z.Goroutines))
		R.Max("heap_idle_bytes", z.Heap)
		if z.Goroutines > a.Goroutines+slackGoroutines {
			R.Violate("goroutines", fmt.Sprintf("idle, the crawler had %d goroutines after round 2 and %d after %d more rounds of the same traffic", a.Goroutines, z.Goroutines, n), z.dump)
		}
		if z.Heap > a.Heap+slackHeap {
			R.Violate("heap", fmt.Sprintf("idle and collected, the crawler's heap was %d bytes after round 2 and %d after %d more rounds of the same traffic", a.Heap, z.Heap, n), fmt.Sprint(ls))
		}
	}
}

// idle waits for the fetches in progress to end and reads the levels.
func idle(p *Proc, base *level, profiled bool) (level, bool) {
	var l level
	end := time.Now().Add(25 * time.Second)
	last, still := -1, 0
	for {
		if p.exited() {
			return l, false
		}
		l.Fds, l.kinds = fds(p)
		l.Threads = threads(p)
		if l.Fds == last {
			still++
		} else {
			still = 0
		}
		last = l.Fds
		if profiled {
			l.Goroutines, l.dump = goroutines()
		}
		fine := base == nil || l.Fds <= base.Fds+slackFds && l.Goroutines <= base.Goroutines+slackGoroutines
		if still >= 25 && fine || time.Now().After(end) {
			break
		}
		time.Sleep(200 * time.Millisecond)
	}
	if profiled {
		l.Heap = heap()
	}
	return l, true
}

// l01traffic is one round.
func l01traffic(p *Proc, r *rand.Rand, k int) bool {
	R := h.R
	srv := peerAt("127.0.0.1", 0)
	defer srv.Close()
	s, err := udpx.Listen("127.0.0.1", 0, nil)
	if err != nil {
		h.Fatal("%v", err)
	}
	defer s.Close()
	sent := 0
	send := func(b []byte) {
		s.Send(b, p.Addr)
		if sent++; sent%40 == 0 {
			for i := 0; i < 1000 && udpx.Queued(p.Port) > 60000; i++ {
				time.Sleep(time.Millisecond)
			}
		}
	}
	id := func() string { return string(h.Bytes(r, 20)) }
	n := 0
	ann := func(hash string, port int) {
		n++
		send(announce(tidOf(r, n), id(), hash, port, nil))
	}
	// all announcements fit the queue
	list := peersim.Hostile()
	for i := 0; i < 60; i++ {
		meta := h.Bytes(r, 1+r.Intn(60000))
		hash := peersim.Hash(meta)
		srv.Plan(hash, multi(r, meta))
		ann(hash, srv.Port())
	}
	for i := 0; i < 40; i++ {
		// a well-behaved peer with something else
		hash := id()
		srv.Plan(hash, multi(r, h.Bytes(r, 1+r.Intn(60000))))
		ann(hash, srv.Port())
	}
	for i := 0; i < 60; i++ {
		hash := id()
		srv.Plan(hash, func(c *peersim.Conn) { c.Gone(10 * time.Second) })
		ann(hash, srv.Port())
	}
	for i := 0; i < 1500; i++ {
		hash := id()
		srv.Plan(hash, func(c *peersim.Conn) {})
		ann(hash, srv.Port())
	}
	for i := 0; i < 40; i++ {
		ann(id(), 1) // nobody listens
	}
	for _, x := range list {
		if x.Heavy {
			continue
		}
		for i := 0; i < 2; i++ {
			hash := id()
			srv.Plan(hash, x.Script(rand.New(rand.NewSource(r.Int63()))))
			ann(hash, srv.Port())
		}
	}
	// from thousands of addresses, each used once
	for i := 0; i < 4000; i++ {
		m, err := net.DialUDP("udp", &net.UDPAddr{IP: net.ParseIP(ip4(127, 1+r.Intn(250), r.Intn(256), 1+r.Intn(250)))}, p.Addr)
		if err != nil {
			continue
		}
		if i%3 == 0 {
			// whoever asked is gone when the answer comes
			m.Write(announce(tidOf(r, i), id(), id(), 1, nil))
			n++
		} else {
			m.Write(query(tidOf(r, i), "ping", ref.D(ref.E("id", ref.S(id())))))
		}
		m.Close()
		if sent++; sent%40 == 0 {
			for i := 0; i < 1000 && udpx.Queued(p.Port) > 60000; i++ {
				time.Sleep(time.Millisecond)
			}
		}
	}
	// queries and what is no query
	for i := 0; i < 30000; i++ {
		if i%2000 == 1999 && !p.Alive("under a round of traffic") {
			return false
		}
		switch i % 8 {
		case 2, 3:
			ann(id(), 1)
		case 0, 1:
			v := variant(r, id())
			if v.q == "announce_peer" {
				v = ask{"get_peers", ref.D(ref.E("id", ref.S(id())), ref.E("info_hash", ref.S(id()))), wantOK, "get_peers"}
			}
			send(query(tidOf(r, i), v.q, v.a))
		case 4:
			send(response(strconv.Itoa(r.Intn(70000)), ref.D(ref.E("id", ref.S(id())), ref.E("nodes", ref.S(string(h.Bytes(r, 26*r.Intn(8))))))))
		case 5:
			b, _ := hostileDatagram(r)
			if len(b) > 3000 {
				b = b[:3000]
			}
			send(b)
		case 6:
			send(ref.Encode(ref.D(ref.E("e", ref.L(ref.I(201), ref.S(id()))), ref.E("t", ref.S(strconv.Itoa(r.Intn(70000)))), ref.E("y", ref.S("e")))))
		default:
			send(query(id(), []string{"vote", "x" + hexs(id()), "sample_infohashes " + id(), hexs(id()) + hexs(id())}[i/8%4], ref.D(ref.E("id", ref.S(id())))))
		}
	}
	R.Count("announcements", int64(n))
	R.Count("datagrams", int64(sent))
	return p.Alive("under a round of traffic")
}
