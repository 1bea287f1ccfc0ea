package main

import (
	"fmt"
	"math/rand"
	"net"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"

	"verifharness/h"
	"verifharness/ref"
	"verifharness/udpx"
)

// ---- K01: one matching reply per query

var kinds = []string{"ping", "find_node", "get_peers", "announce_peer"}

// echoHandlers answer with a function of the very query they were run for.
func echoHandlers(s *krpc.RpcServer, delay func() time.Duration) {
	for _, kind := range kinds {
		kind := kind
		s.RegisteHandler(kind, func(c *krpc.RpcContext) {
			req := c.Request()
			b := req.Body()
			if delay != nil {
				if d := delay(); d > 0 {
					time.Sleep(d)
				}
			}
			c.WriteAs(krpc.WithResponse(req.TxId(), misc.Dict{
				"id": serverId, "kind": kind, "qtype": req.Type(),
				"n": b.GetInteger("n"), "who": b.GetInteger("who"),
				"echo": b.GetString("echo"), "from": c.RemoteAddr().String(),
			}))
		})
	}
}

type pend struct {
	t, kind, echo string
	n, who        int64
	size          int
}

type client struct {
	mu   sync.Mutex
	c    *udpx.Sock
	out  map[string]*pend
	sem  chan struct{}
	who  int64
	srv  *srv
	want *net.UDPAddr // where replies come from
	done int64
	lost bool
	hole *udpx.Sock // takes the server's own queries
}

func (c *client) on(p udpx.Packet) {
	w := map[string]string{"client": fmt.Sprint(c.c.Addr), "from": fmt.Sprint(p.From), "datagram": h.Hex(p.B)}
	v, n, st := ref.Parse(string(p.B))
	if st == ref.Bad || n != len(p.B) {
		h.R.Violate("reply-malformed", "a reply is not one bencoded value", w)
		return
	}
	if st == ref.Unclear {
		return
	}
	t, _ := v.Str("t")
	c.mu.Lock()
	x := c.out[t]
	delete(c.out, t)
	c.mu.Unlock()
	if x == nil {
		h.R.Violate("reply-unexpected", "a reply carries a transaction id this client has no open query for: answered twice or sent to the wrong client", w)
		return
	}
	if p.From.Port != c.srv.port || !p.From.IP.Equal(c.want.IP) {
		h.R.Violate("reply-source", "the reply does not come from the address the query went to", w)
	}
	if y, _ := v.Str("y"); y != "r" {
		h.R.Violate("reply-kind", "a well-formed query was answered with y="+fmt.Sprintf("%q", y), w)
	} else {
		b := v.Get("r")
		kind, _ := b.Str("kind")
		qt, _ := b.Str("qtype")
		nn, _ := b.Int("n")
		who, _ := b.Int("who")
		echo, _ := b.Str("echo")
		from, _ := b.Str("from")
		id, _ := b.Str("id")
		if kind != x.kind || qt != x.kind || nn != x.n || who != x.who || echo != x.echo || id != serverId {
			h.R.Violate("reply-content", fmt.Sprintf("the reply to %s n=%d of client %d holds what a handler produced for %s/%s n=%d of client %d", x.kind, x.n, x.who, kind, qt, nn, who), w)
		}
		if a, err := net.ResolveUDPAddr("udp", from); err != nil || a.Port != c.c.Addr.Port || !a.IP.Equal(c.c.Addr.IP) {
			h.R.Violate("handler-address", "the handler saw sender "+from+", the query came from "+c.c.Addr.String(), w)
		}
	}
	c.mu.Lock()
	c.done++
	c.mu.Unlock()
	h.R.Eval(fmt.Sprintf("%s|%d|%d|%x", x.kind, len(t), x.size, x.n%16))
	<-c.sem
}

func (c *client) run(r *rand.Rand, total int, maxEcho int) {
	type once struct {
		x *pend
		b []byte
	}
	var sent []once
	for i := 0; i < total; i++ {
		select {
		case c.sem <- struct{}{}:
		case <-time.After(12 * time.Second):
			if !h.Wait(8*time.Second, func() bool {
				select {
				case c.sem <- struct{}{}:
					return true
				default:
					return false
				}
			}) {
				c.reportLost()
				return
			}
		}
		if h.R.Bad() > 3 {
			<-c.sem
			return
		}
		if len(sent) > 0 && r.Intn(6) == 0 {
			// the very same datagram once more is a query of its own
			k := r.Intn(len(sent))
			x := *sent[k].x
			c.mu.Lock()
			free := c.out[x.t] == nil
			if free {
				c.out[x.t] = &x
			}
			c.mu.Unlock()
			if free {
				h.R.Count("queries_sent", 1)
				h.R.Count("queries_repeated_literally", 1)
				if err := c.c.Send(sent[k].b, c.want); err != nil {
					h.Fatal("send: %v", err)
				}
				continue
			}
		}
		x := &pend{kind: kinds[r.Intn(4)], n: int64(i), who: c.who}
		// few ids: every client uses the same ones at the same time
		c.mu.Lock()
		for {
			x.t = string([]byte{byte(i), byte(r.Intn(3))})
			switch r.Intn(4) {
			case 0:
				x.t = string([]byte{byte(r.Intn(256))})
			case 1:
				x.t = tid(r)
				if r.Intn(4) == 0 {
					x.t = "" // as good an id as any
				}
			}
			if c.out[x.t] == nil {
				break
			}
		}
		switch r.Intn(5) {
		case 0:
		case 1:
			x.echo = string(h.Bytes(r, r.Intn(maxEcho)))
		default:
			x.echo = string(h.Bytes(r, r.Intn(40)))
		}
		c.out[x.t] = x
		a := ref.D(ref.E("echo", ref.S(x.echo)), ref.E("id", ref.S(querierId(r))), ref.E("n", ref.I(x.n)), ref.E("who", ref.I(x.who)))
		if r.Intn(3) == 0 {
			a.D = append(a.D, ref.E("zz", ref.L(ref.I(-5), ref.D(ref.E("x", ref.L())))))
		}
		b := query(x.t, x.kind, a)
		if len(b) > 1024 {
			x.echo = x.echo[:len(x.echo)-(len(b)-1024)]
			a.D[0].V = ref.S(x.echo)
			b = query(x.t, x.kind, a)
		}
		x.size = len(b)
		c.mu.Unlock()
		if len(b) > 1024 {
			h.Fatal("query too long: %d", len(b))
		}
		if len(sent) < 8 {
			sent = append(sent, once{x, b})
		} else {
			sent[r.Intn(8)] = once{x, b}
		}
		if i < 2 && c.who < 2 {
			h.R.Sample(map[string]string{"query": h.Hex(b), "client": c.c.Addr.String()})
		}
		for w := 0; cap(c.sem) > 20 && w < 2000 && udpx.Queued(c.srv.port) > 20000; w++ {
			time.Sleep(time.Millisecond)
		}
		if r.Intn(12) == 0 && x.t != "" {
			// the server itself waits for an answer with the same id
			c.srv.s.Query(c.hole.Addr, krpc.NewBaseRequest(x.t, x.kind, misc.Dict{"id": serverId}, func(*krpc.RpcContext) {}))
			h.R.Count("queries_crossing_own_ids", 1)
		}
		h.R.Count("queries_sent", 1)
		h.R.Max("largest_query", int64(len(b)))
		if err := c.c.Send(b, c.want); err != nil {
			h.Fatal("send: %v", err)
		}
	}
	// the rest of the window
	for i := 0; i < cap(c.sem); i++ {
		ok := h.Wait(20*time.Second, func() bool {
			select {
			case c.sem <- struct{}{}:
				return true
			default:
				return false
			}
		})
		if !ok {
			c.reportLost()
			return
		}
	}
}

func (c *client) reportLost() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.lost = true
	for t, x := range c.out {
		missing("no-reply", fmt.Sprintf("a well-formed %s query of %d bytes got no reply within 20 s", x.kind, x.size), map[string]interface{}{"t": h.HexS(t), "echo": h.HexS(x.echo), "client": c.c.Addr.String()}, c.srv.port, c.c.Addr.Port)
		return
	}
}

// querierId: nobody need have a random id.
func querierId(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return serverId
	case 1:
		return strings.Repeat(string([]byte{[]byte{0, 0xff, ' ', '0', 'e', '\n', ':', byte(r.Intn(256))}[r.Intn(8)]}), 20)
	}
	return string(h.Bytes(r, 20))
}

func k01() {
	h.R.Rule = "queries of all four kinds with random transaction ids (reused across clients), payloads of 0 to ~900 bytes and bystander arguments from many sockets at once against the real server, handlers delayed in some rounds; distinct = kind x id length x query size x sequence class; oracle: each query gets exactly one reply, to its socket, with its id and the content computed from that very query; no reply counts as missing when the kernel dropped a datagram"
	hasV6 := false
	if c, err := net.ListenUDP("udp6", &net.UDPAddr{IP: net.ParseIP("::1")}); err == nil {
		hasV6 = true
		c.Close()
	}
	modes := []string{"fast", "jitter", "slow-few", "junk", "fast-one"}
	switch h.Scenario {
	case "held":
		for round := 0; round < h.N(1, 6) && !h.R.Violated(); round++ {
			k01round(900+3*round, "held", hasV6)
		}
		return
	case "one", "three":
		// the server handles hardly anything at once
		modes = []string{"fast", "junk", "fast-one"}
		// more queries than it has room for, while its handlers are stuck
		k01round(700, "stalled", hasV6)
	}
	rounds := h.N(5, 60)
	for round := 0; round < rounds && !h.R.Violated(); round++ {
		k01round(round, modes[round%len(modes)], hasV6)
	}
}

func k01round(round int, mode string, hasV6 bool) {
	h.Journal("k01 round %d %s", round, mode)
	var rmu sync.Mutex
	dr := h.Rand("delay", round)
	var delay func() time.Duration
	clients, total, window := 32, h.N(150, 400), 4
	switch mode {
	case "jitter":
		delay = func() time.Duration {
			rmu.Lock()
			defer rmu.Unlock()
			return time.Duration(dr.Intn(4000)) * time.Microsecond
		}
	case "slow-few":
		total = h.N(60, 150)
		delay = func() time.Duration {
			rmu.Lock()
			defer rmu.Unlock()
			if dr.Intn(10) == 0 {
				return 40 * time.Millisecond
			}
			return 0
		}
	case "fast-one":
		clients, total, window = 1, h.N(600, 2000), 1
	case "held":
		// nearly as many queries at once as the server handles at once, and
		// each of them takes its time
		clients, total, window = 40, 47, 47
		delay = func() time.Duration { return time.Duration(h.N(5, 12)) * time.Second }
	}
	if mode == "stalled" {
		clients, total, window = 8, 20, 20
		var begun int32
		delay = func() time.Duration {
			if atomic.AddInt32(&begun, 1) <= 3 {
				return 4 * time.Second
			}
			return 50 * time.Millisecond
		}
	}
	host := ""
	if round%3 == 1 {
		host = "127.0.0.1"
	}
	s := start(host, func(s *krpc.RpcServer) { echoHandlers(s, delay) })
	var cs []*client
	hole := sock("127.0.0.1", func(udpx.Packet) {})
	defer hole.Close()
	for i := 0; i < clients; i++ {
		ip := "127.0.0.1"
		want := udpx.Loop(s.port)
		if host == "" {
			switch {
			case i%4 == 1:
				ip = fmt.Sprintf("127.0.%d.%d", 1+i%3, 2+i)
			case i%4 == 2 && hasV6:
				ip = "::1"
				want = &net.UDPAddr{IP: net.ParseIP("::1"), Port: s.port}
			}
		}
		c := &client{out: map[string]*pend{}, sem: make(chan struct{}, window), who: int64(round*1000 + i), srv: s, want: want, hole: hole}
		c.c = sock(ip, func(p udpx.Packet) { c.on(p) })
		cs = append(cs, c)
	}
	stop := make(chan struct{})
	var jw sync.WaitGroup
	if mode == "junk" {
		js := sock("127.0.0.1", nil)
		jw.Add(1)
		go func() {
			defer jw.Done()
			defer js.Close()
			r := h.Rand("junk", round)
			for {
				select {
				case <-stop:
					return
				default:
				}
				b := h.Bytes(r, 1+r.Intn(200))
				if r.Intn(2) == 0 {
					b = response(tid(r), ref.D(ref.E("id", ref.S(serverId))))
				}
				b[0] = "dxi1"[r.Intn(4)]
				if v, _, st := ref.Parse(string(b)); st == ref.OK && v.Get("q") != nil {
					continue
				}
				js.Send(b, s.addr)
				time.Sleep(200 * time.Microsecond)
			}
		}()
	}
	var wg sync.WaitGroup
	for i, c := range cs {
		wg.Add(1)
		r := h.Rand("client", round, i)
		go func(c *client) {
			defer wg.Done()
			c.run(r, total, 860)
		}(c)
	}
	wg.Wait()
	close(stop)
	jw.Wait()
	// late duplicates
	time.Sleep(150 * time.Millisecond)
	var answered int64
	for _, c := range cs {
		c.mu.Lock()
		answered += c.done
		c.mu.Unlock()
	}
	h.R.Count("queries_answered", answered)
	h.R.Count("rounds", 1)
	s.s.Close()
	for _, c := range cs {
		c.c.Close()
	}
}

// ---- K02: hostile datagrams

type class int

const (
	silent class = iota
	answer
	either
)

func (c class) String() string { return []string{"silent", "answer", "either"}[c] }

// classify says what the statement demands for one datagram.
func classify(b []byte) (class, string) {
	one := func(s string) (class, string) {
		v, n, st := ref.Parse(s)
		switch st {
		case ref.Bad:
			return silent, ""
		case ref.Unclear:
			return either, ""
		}
		if v.Kind != ref.Dict {
			return silent, ""
		}
		y, ok := v.Str("y")
		if !ok || y != "q" {
			if ok && strings.EqualFold(y, "q") {
				return either, ""
			}
			return silent, ""
		}
		t, okT := v.Str("t")
		q, okQ := v.Str("q")
		if !okT || !okQ {
			return silent, ""
		}
		if n != len(s) || t == "" || q == "" || !ref.Sorted(v) {
			return either, ""
		}
		return answer, t
	}
	c, t := one(string(b))
	if len(b) > 1024 {
		// delivery is promised up to 1024 bytes only
		c2, _ := one(string(b[:1024]))
		if c == silent && c2 == silent {
			return silent, ""
		}
		return either, ""
	}
	return c, t
}

func validMessages(r *rand.Rand) [][]byte {
	id := ref.S(string(h.Bytes(r, 20)))
	ih := ref.S(string(h.Bytes(r, 20)))
	var out [][]byte
	out = append(out,
		query(tid(r), "ping", ref.D(ref.E("id", id))),
		query(tid(r), "find_node", ref.D(ref.E("id", id), ref.E("target", ih))),
		query(tid(r), "get_peers", ref.D(ref.E("id", id), ref.E("info_hash", ih))),
		query(tid(r), "announce_peer", ref.D(ref.E("id", id), ref.E("implied_port", ref.I(int64(r.Intn(2)))), ref.E("info_hash", ih), ref.E("port", ref.I(int64(r.Intn(70000)))), ref.E("token", ref.S(tid(r))))),
		response(tid(r), ref.D(ref.E("id", id))),
		response(tid(r), ref.D(ref.E("id", id), ref.E("nodes", ref.S(string(h.Bytes(r, 26*r.Intn(9))))))),
		response(tid(r), ref.D(ref.E("id", id), ref.E("token", ref.S("x")), ref.E("values", ref.L(ref.S("abcdef"), ref.S("ghijkl"))))),
		ref.Encode(ref.D(ref.E("e", ref.L(ref.I(201), ref.S("A Generic Error Ocurred"))), ref.E("t", ref.S(tid(r))), ref.E("y", ref.S("e")))),
	)
	return out
}

func randVal(r *rand.Rand, depth int) *ref.Val {
	k := r.Intn(7)
	if depth == 0 {
		k = r.Intn(4)
	}
	switch k {
	case 0:
		return ref.I(int64(r.Uint64()))
	case 1:
		return ref.I(int64(r.Intn(5)) - 2)
	case 2, 3:
		return ref.S(string(h.Bytes(r, r.Intn(30))))
	case 4:
		v := ref.L()
		for i := r.Intn(4); i > 0; i-- {
			v.L = append(v.L, randVal(r, depth-1))
		}
		return v
	default:
		v := ref.D()
		keys := []string{"a", "e", "id", "info_hash", "nodes", "port", "q", "r", "t", "target", "token", "values", "y", ""}
		for _, key := range keys {
			if r.Intn(5) == 0 {
				v.D = append(v.D, ref.E(key, randVal(r, depth-1)))
			}
		}
		return v
	}
}

// hostile makes one datagram of a named sort.
func hostile(r *rand.Rand, i int) (string, []byte) {
	ms := validMessages(r)
	m := ms[r.Intn(len(ms))]
	switch i % 16 {
	case 0:
		return "random", h.Bytes(r, r.Intn(300))
	case 1:
		b := h.Bytes(r, 1+r.Intn(200))
		b[0] = "dlieq0123456789"[r.Intn(15)]
		return "random-start", b
	case 2, 3:
		return "truncated", m[:r.Intn(len(m))]
	case 4, 5:
		b := append([]byte(nil), m...)
		for k := 1 + r.Intn(3); k > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		return "mutated", b
	case 6:
		b := append([]byte(nil), m...)
		for k := 1 + r.Intn(2); k > 0; k-- {
			b[r.Intn(len(b))] = "0123456789eidl:-"[r.Intn(16)]
		}
		return "mutated-syntax", b
	case 7:
		n := 1 + r.Intn(1000)
		switch r.Intn(4) {
		case 0:
			return "deep", []byte(strings.Repeat("l", n))
		case 1:
			return "deep", []byte("d1:a" + strings.Repeat("l", n))
		case 2:
			k := 1 + r.Intn(400)
			return "deep", []byte(strings.Repeat("l", k) + strings.Repeat("e", k))
		default:
			return "deep", []byte(strings.Repeat("d1:y", 1+r.Intn(240)))
		}
	case 8:
		w := []string{"99999999999999999999:x", "9223372036854775807:a", "2147483647:a", "4294967297:a", "d1:t9223372036854775807:a1:y1:qe", "i99999999999999999999999e", "d1:yi9223372036854775808ee", "d99999999:", "-1:a", "d-1:a1:be", "d1:t-5:abcde1:y1:qe", "18446744073709551615:", "d1:q18446744073709551611:ping1:t2:aa1:y1:qe", "d1:ad2:id20:abcdefghij01234567899e1:q4:ping1:t2:aa1:y1:qe"}
		return "huge-length", []byte(w[r.Intn(len(w))])
	case 9, 10:
		// a message whose fields have random types
		v := ref.D()
		for _, key := range []string{"a", "e", "q", "r", "t", "y"} {
			switch r.Intn(4) {
			case 0:
				continue
			case 1:
				v.D = append(v.D, ref.E(key, randVal(r, 2)))
			default:
				good := map[string]*ref.Val{
					"a": ref.D(ref.E("id", ref.S("abcdefghij0123456789"))), "e": ref.L(ref.I(201), ref.S("x")),
					"q": ref.S(kinds[r.Intn(4)]), "r": ref.D(ref.E("id", ref.S("abcdefghij0123456789"))),
					"t": ref.S(tid(r)), "y": ref.S([]string{"q", "r", "e", "z", ""}[r.Intn(5)])}
				v.D = append(v.D, ref.E(key, good[key]))
			}
		}
		return "field-types", ref.Encode(v)
	case 11:
		return "empty", nil
	case 12:
		b := h.Bytes(r, 1025+r.Intn(3000))
		if r.Intn(2) == 0 {
			b[0] = 'd'
		}
		if r.Intn(10) == 0 {
			b = h.Bytes(r, 20000+r.Intn(40000))
		}
		return "oversized", b
	case 13:
		pad := ref.S(string(h.Bytes(r, 1000+r.Intn(500))))
		return "oversized-message", query(tid(r), "ping", ref.D(ref.E("id", ref.S("abcdefghij0123456789")), ref.E("pad", pad)))
	case 14:
		return "not-a-query", ms[4+r.Intn(4)]
	default:
		return "structure", ref.Encode(randVal(r, 3))
	}
}

const booms = 16

// boom is a handler's bad end, of some sort.
func boom(i int) {
	var m map[string]int
	var p *net.UDPAddr
	var x interface{} = "text"
	l := make([]int, 3)
	switch i {
	case 0:
		m["x"] = 1
	case 1:
		p.Port = l[0]
	case 2:
		l[i+5] = 1
	case 3:
		l[0] = x.(int)
	case 4:
		panic("text")
	case 5:
		panic(fmt.Errorf("open /repo/dht/secret.go at 0xc000123456: goroutine 7 [running]"))
	case 6:
		panic(5)
	case 7:
		panic(misc.Dict{"a": misc.List{1, func() {}}})
	case 8:
		panic(struct{ a, b interface{} }{1, m})
	case 10:
		panic(fmt.Errorf(""))
	case 11:
		panic("")
	case 12:
		var none error
		panic(none)
	case 13:
		panic((*net.OpError)(nil)) // an error whose Error method fails
	case 14: // a failure the handler itself declares to be the system's
		misc.PanicSysErr("", nil)
	case 15:
		panic(strings.Repeat("long ", 20000))
	default:
		misc.PanicBizErr("refused", 1, "two")
	}
}

func k02() {
	h.R.Rule = "datagrams of 16 sorts (random, truncated at every point, mutated, deeply nested, huge lengths, wrong field types, empty, oversized, responses, errors) sent to the real server with outstanding queries; each classified by an independent parser as must-stay-silent, must-be-answered, or unspecified; distinct = the datagrams; oracle: sockets that only sent silent ones receive nothing, answered ones get exactly one reply with their id, and interleaved well-formed pings are always answered"
	stop := h.Guard("hang", "the hostile datagram workload", time.Duration(h.N(200, 3000))*time.Second)
	defer stop()
	s := start("", func(s *krpc.RpcServer) {
		plainHandlers(s)
		// what a handler does when it meets what it did not expect
		s.RegisteHandler("announce_peer", func(c *krpc.RpcContext) {
			b := c.Request().Body()
			if b.Exist("boom") {
				boom(b.GetInteger("boom"))
			}
			b.GetString("info_hash")
			b.GetInteger("port")
			c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": serverId}))
		})
	})
	pr := newProber(s)
	pr.alive("before any hostile datagram")
	r := h.Rand("hostile")
	var sb inbox
	var silents []*udpx.Sock
	for i := 0; i < 4; i++ {
		silents = append(silents, sock("127.0.0.1", sb.on))
	}
	maybe := sock("127.0.0.1", nil)
	var ab inbox
	ask := sock("127.0.0.1", ab.on)
	// outstanding queries whose ids hostile responses can hit
	sink := sock("127.0.0.1", nil)
	open := []string{}
	for i := 0; i < 200; i++ {
		t := fmt.Sprintf("o%d", i)
		open = append(open, t)
		s.s.Query(sink.Addr, krpc.NewBaseRequest(t, "find_node", misc.Dict{"id": serverId, "target": serverId}, func(c *krpc.RpcContext) {
			b := c.Response().Body()
			b.GetString("nodes")
			if b.Exist("boom") {
				boom(b.GetInteger("boom"))
			}
			l := b.GetList("values")
			l.GetString(5)
		}))
	}
	lastSilent := ""
	checkSilent := func() {
		for _, p := range sb.take() {
			h.R.Violate("answered-junk", "a datagram that is not a complete query was answered", map[string]string{"reply": h.Hex(p.B), "one of the datagrams sent before": lastSilent})
		}
	}
	batch := 0
	send := func(name string, b []byte) bool {
		c, t := classify(b)
		h.Journal("k02 %s %s %s", name, c, h.Hex(b))
		h.R.Eval(string(b))
		h.R.Count("sent_"+c.String(), 1)
		h.R.Count("sort_"+name, 1)
		switch c {
		case silent:
			lastSilent = name + " " + h.Hex(b)
			silents[r.Intn(len(silents))].Send(b, s.addr)
		case either:
			maybe.Send(b, s.addr)
		case answer:
			ab.take()
			ask.Send(b, s.addr)
			var got []udpx.Packet
			h.Wait(8*time.Second, func() bool { got = append(got, ab.take()...); return len(got) > 0 })
			if len(got) == 0 {
				missing("no-reply", "a well-formed query got no reply", map[string]string{"query": h.Hex(b), "sort": name}, s.port, ask.Addr.Port)
				return pr.alive("after " + name)
			}
			for _, p := range got {
				v, n, st := ref.Parse(string(p.B))
				tt, _ := v.Str("t")
				if st != ref.OK || n != len(p.B) || tt != t {
					h.R.Violate("reply-wrong", "the reply to a well-formed query is malformed or carries another transaction id", map[string]string{"query": h.Hex(b), "reply": h.Hex(p.B)})
				}
			}
			if len(got) > 1 {
				h.R.Violate("reply-twice", "a query got two replies", map[string]string{"query": h.Hex(b)})
			}
		}
		batch += 1 + len(b)/1024*4
		if batch > 60 {
			batch = 0
			checkSilent()
			return pr.alive("after " + name)
		}
		return true
	}
	// every truncation of every kind of message
	for _, m := range validMessages(r) {
		for n := 0; n <= len(m); n++ {
			if !send("truncation", m[:n]) || h.R.Bad() > 4 {
				return
			}
		}
		for n := range m {
			b := append([]byte(nil), m...)
			b[n] ^= byte(1 + r.Intn(255))
			if !send("byte-flip", b) || h.R.Bad() > 4 {
				return
			}
			// a byte too many or too few
			b = append(append(append([]byte(nil), m[:n]...), " \n\x00\t\r-+0"[r.Intn(8)]), m[n:]...)
			if !send("byte-inserted", b) || h.R.Bad() > 4 {
				return
			}
			if !send("byte-dropped", append(append([]byte(nil), m[:n]...), m[n+1:]...)) || h.R.Bad() > 4 {
				return
			}
		}
		for _, lead := range []string{" ", "\n", "\r\n", "\x00", "\t ", "\xef\xbb\xbf", "\x00\x00\x00\x10", "e", "0:", "le", "i0e", "d"} {
			if !send("led-by-junk", append([]byte(lead), m...)) || h.R.Bad() > 4 {
				return
			}
		}
	}
	for i := 0; i < 3*booms; i++ {
		t := fmt.Sprintf("b%d", i)
		n := ref.I(int64(i % booms))
		q := query(t, "announce_peer", ref.D(ref.E("boom", n), ref.E("id", ref.S(string(h.Bytes(r, 20)))), ref.E("info_hash", ref.S(string(h.Bytes(r, 20)))), ref.E("port", ref.I(1)), ref.E("token", ref.S("x"))))
		h.Journal("k02 handler panics %s", h.Hex(q))
		maybe.Send(q, s.addr)
		if !pr.alive(fmt.Sprintf("after a query whose handler panics (%d)", i%booms)) {
			return
		}
		a := response(open[i], ref.D(ref.E("boom", n), ref.E("id", ref.S(serverId)), ref.E("nodes", ref.S(""))))
		h.Journal("k02 response handler panics %s", h.Hex(a))
		maybe.Send(a, s.addr)
		if !pr.alive(fmt.Sprintf("after a response whose handler panics (%d)", i%booms)) {
			return
		}
		h.R.Eval("boom" + string(q))
		h.R.Count("handlers_made_to_panic", 2)
	}
	for i := 0; i < h.N(24000, 400000); i++ {
		name, b := hostile(r, i)
		if i%16 == 14 && r.Intn(2) == 0 {
			// aim at an outstanding query, with a malformed or odd body
			t := open[r.Intn(len(open))]
			name = "odd-response"
			switch r.Intn(4) {
			case 0:
				b = response(t, randVal(r, 2))
			case 1:
				b = response(t, ref.D(ref.E("id", ref.I(5))))
			case 2:
				b = ref.Encode(ref.D(ref.E("e", randVal(r, 2)), ref.E("t", ref.S(t)), ref.E("y", ref.S("e"))))
			default:
				b = response(t, ref.D(ref.E("id", ref.S(serverId)), ref.E("nodes", randVal(r, 1)), ref.E("values", randVal(r, 2))))
			}
		}
		if i < 40 && len(b) < 120 {
			h.R.Sample(map[string]string{"sort": name, "datagram": h.Hex(b)})
		}
		if !send(name, b) || h.R.Bad() > 4 {
			break
		}
	}
	pr.alive("at the end")
	time.Sleep(300 * time.Millisecond)
	checkSilent()
	// who sent junk may ask as well as anybody
	for i := 0; i < len(silents) && h.R.Bad() == 0; i++ {
		c := &prober{s: s, c: silents[i], n: 1 << 20 * (i + 1)}
		c.take = sb.take
		c.alive("for a client that had sent junk before")
	}
	s.s.Close()
}

// ---- K03: invalid queries

var leak = regexp.MustCompile(`goroutine \d|\.go\b|0x[0-9a-fA-F]{4,}|runtime[./]|/repo|/usr/|github\.com|debug\.Stack|stacks?:|\[running\]|\+0x`)

func k03() {
	h.R.Rule = "invalid queries of every kind (unsupported type, unregistered handler, missing or malformed argument section, sender id of a wrong length or type, arguments the handler's accessors reject), ids and payloads random; distinct = kind x shape x query size; oracle: exactly one reply, y=e, same id, [203, text], no stack trace, file name or address in the text, at most 256 bytes larger than the query"
	s := start("", func(s *krpc.RpcServer) {
		rpc := func(f func(b misc.Dict)) krpc.RpcHandlerFunc {
			return func(c *krpc.RpcContext) {
				f(c.Request().Body())
				c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": serverId}))
			}
		}
		s.RegisteHandler("get_peers", rpc(func(b misc.Dict) { b.GetString("info_hash") }))
		s.RegisteHandler("announce_peer", rpc(func(b misc.Dict) {
			b.GetString("info_hash")
			b.GetInteger("port")
			if b.Exist("d") {
				d := b.GetDict("d")
				d.GetDict("e")
			}
			if b.Exist("l") {
				l := b.GetList("l")
				l.GetInteger(2)
			}
			if b.Exist("biz") {
				n := b.GetInteger("biz")
				misc.PanicBizErr("rejected by the handler"+strings.Repeat(" and again", n), "param", 7)
			}
			if b.Exist("boom") {
				boom(b.GetInteger("boom"))
			}
		}))
		s.RegisteHandler("ping", rpc(func(b misc.Dict) {}))
		// find_node has no handler here
	})
	var in inbox
	c := sock("127.0.0.1", in.on)
	pr := newProber(s)
	r := h.Rand("invalid")
	hash := ref.S(string(h.Bytes(r, 20)))
	type tc struct{ kind, q string }
	const broken = "handler breaks"
	mk := func(i int) (kind string, q string, a *ref.Val) {
		id := ref.S(string(h.Bytes(r, 20)))
		pad := func(v *ref.Val) *ref.Val {
			if r.Intn(3) == 0 {
				v.D = append(v.D, ref.E("zpad", ref.S(string(h.Bytes(r, r.Intn(700))))))
			}
			return v
		}
		notStr := []*ref.Val{ref.I(5), ref.L(), ref.L(ref.S("x")), ref.D(), ref.I(-1)}
		notInt := []*ref.Val{ref.S("80"), ref.L(ref.I(1)), ref.D(), ref.S("")}
		notDict := []*ref.Val{ref.I(5), ref.L(), ref.S("abcdefghij0123456789"), ref.S("")}
		switch i % 12 {
		case 0:
			n := 1 + r.Intn(20)
			q := make([]byte, n)
			for k := range q {
				q[k] = byte('a' + r.Intn(26))
			}
			return "unsupported type", "x" + string(q), pad(ref.D(ref.E("id", id)))
		case 1:
			return "unsupported long type", "y" + strings.Repeat("z", 1+r.Intn(900)), ref.D(ref.E("id", id))
		case 2:
			b := h.Bytes(r, 1+r.Intn(30))
			for k := range b {
				if b[k] == '\n' || b[k] == '\r' || b[k] < 32 && r.Intn(2) == 0 {
					b[k] = 0xfe
				}
			}
			return "unsupported binary type", "\xff" + string(b), ref.D(ref.E("id", id))
		case 3:
			return "no handler", "find_node", pad(ref.D(ref.E("id", id), ref.E("target", id)))
		case 4:
			return "missing arguments", kinds[r.Intn(4)], nil
		case 5:
			return "malformed arguments", kinds[r.Intn(4)], notDict[r.Intn(len(notDict))]
		case 6:
			return "missing id", kinds[r.Intn(4)], pad(ref.D(ref.E("info_hash", hash)))
		case 7:
			return "id of another type", kinds[r.Intn(4)], ref.D(ref.E("id", notStr[r.Intn(len(notStr))]), ref.E("info_hash", hash))
		case 8:
			n := []int{0, 1, 10, 19, 21, 40, 200}[r.Intn(7)]
			return "id length", kinds[r.Intn(4)], pad(ref.D(ref.E("id", ref.S(string(h.Bytes(r, n)))), ref.E("info_hash", hash)))
		case 9:
			return "argument missing", "get_peers", pad(ref.D(ref.E("id", id)))
		case 10:
			return "argument type", "get_peers", pad(ref.D(ref.E("id", id), ref.E("info_hash", notStr[r.Intn(len(notStr))])))
		default:
			switch r.Intn(7) {
			case 5:
				return broken, "announce_peer", ref.D(ref.E("boom", ref.I(int64([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15}[r.Intn(15)]))), ref.E("id", id), ref.E("info_hash", hash), ref.E("port", ref.I(1)))
			case 0:
				return "port missing", "announce_peer", pad(ref.D(ref.E("id", id), ref.E("info_hash", hash)))
			case 1:
				return "port type", "announce_peer", pad(ref.D(ref.E("id", id), ref.E("info_hash", hash), ref.E("port", notInt[r.Intn(len(notInt))])))
			case 2:
				return "nested missing", "announce_peer", ref.D(ref.E("d", ref.D()), ref.E("id", id), ref.E("info_hash", hash), ref.E("port", ref.I(1)))
			case 3:
				return "nested type", "announce_peer", ref.D(ref.E("d", ref.D(ref.E("e", ref.S("x")))), ref.E("id", id), ref.E("info_hash", hash), ref.E("port", ref.I(1)))
			case 4:
				l := ref.L(ref.I(1), ref.I(2))
				if r.Intn(2) == 0 {
					l = ref.L(ref.I(1), ref.I(2), ref.S("x"))
				}
				return "list element", "announce_peer", ref.D(ref.E("id", id), ref.E("info_hash", hash), ref.E("l", l), ref.E("port", ref.I(1)))
			default:
				return "handler refuses", "announce_peer", ref.D(ref.E("biz", ref.I(int64(r.Intn(14)))), ref.E("id", id), ref.E("info_hash", hash), ref.E("port", ref.I(1)))
			}
		}
	}
	for i := 0; i < h.N(6000, 300000); i++ {
		kind, q, a := mk(i)
		t := fmt.Sprintf("%s%x", tid(r), i)
		d := ref.D()
		if a != nil {
			d.D = append(d.D, ref.E("a", a))
		}
		d.D = append(d.D, ref.E("q", ref.S(q)), ref.E("t", ref.S(t)), ref.E("y", ref.S("q")))
		b := ref.Encode(d)
		if len(b) > 1024 {
			continue
		}
		h.Journal("k03 %s %s", kind, h.Hex(b))
		w := map[string]string{"kind": kind, "query": h.Hex(b)}
		if i < 24 && i%4 == 0 {
			h.R.Sample(w)
		}
		c.Send(b, s.addr)
		var got []udpx.Packet
		if kind == broken {
			// an answer is not owed; one that comes must be as any other
			if !pr.alive("after a query whose handler panics") {
				return
			}
			h.Wait(8*time.Millisecond, func() bool { got = append(got, in.take()...); return len(got) > 0 })
		} else {
			h.Wait(8*time.Second, func() bool { got = append(got, in.take()...); return len(got) > 0 })
		}
		h.R.Eval(fmt.Sprintf("%s|%s|%d", kind, q, len(b)))
		h.R.Count("kind "+kind, 1)
		if len(got) == 0 && kind == broken {
			h.R.Count("broken_handlers_unanswered", 1)
			continue
		}
		if len(got) == 0 {
			missing("no-reply", "an invalid query ("+kind+") got no reply", w, s.port, c.Addr.Port)
			if !pr.alive("after an invalid query") {
				return
			}
			continue
		}
		for _, p := range got {
			w["reply"] = h.Hex(p.B)
			v, n, st := ref.Parse(string(p.B))
			if st == ref.Bad || n != len(p.B) || v.Kind != ref.Dict {
				h.R.Violate("reply-malformed", "the reply is not a bencoded dictionary", w)
				continue
			}
			if tt, _ := v.Str("t"); tt != t {
				h.R.Violate("reply-id", "the reply carries another transaction id", w)
				continue
			}
			y, _ := v.Str("y")
			e := v.Get("e")
			if y != "e" || e == nil || e.Kind != ref.List || len(e.L) != 2 || e.L[0].Kind != ref.Int || e.L[1].Kind != ref.Str {
				h.R.Violate("reply-kind", "an invalid query ("+kind+") was not answered with an error message", w)
				continue
			}
			if e.L[0].I != 203 {
				h.R.Violate("reply-code", fmt.Sprintf("error code %d instead of 203 (%s)", e.L[0].I, kind), w)
			}
			text := e.L[1].S
			if m := leak.FindString(text); m != "" {
				h.R.Violate("reply-leaks", fmt.Sprintf("the error text contains %q (%s)", m, kind), map[string]string{"kind": kind, "query": h.Hex(b), "text": fmt.Sprintf("%.600q", text)})
			}
			if len(p.B) > len(b)+256 {
				h.R.Violate("reply-size", fmt.Sprintf("a query of %d bytes got a reply of %d bytes (%s)", len(b), len(p.B), kind), w)
			}
			h.R.Max("largest_growth", int64(len(p.B)-len(b)))
		}
		if len(got) > 1 {
			h.R.Violate("reply-twice", "an invalid query ("+kind+") got two replies", w)
		}
		if h.R.Bad() > 5 {
			break
		}
	}
	time.Sleep(200 * time.Millisecond)
	if p := in.take(); len(p) > 0 {
		h.R.Violate("reply-twice", "a further reply arrived", h.Hex(p[0].B))
	}
	pr.alive("at the end")
	s.s.Close()
}
