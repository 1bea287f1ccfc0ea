package main

import (
	"fmt"
	"math"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/h"
	"verifharness/peersim"
	"verifharness/ref"
	"verifharness/udpx"
)

func to6(port int) *net.UDPAddr { return &net.UDPAddr{IP: net.IPv6loopback, Port: port} }

var have6 = func() bool {
	c, err := net.ListenUDP("udp6", &net.UDPAddr{IP: net.IPv6loopback})
	if err != nil {
		return false
	}
	c.Close()
	return true
}()

// ---- D07

type wantReply int

const (
	wantOK wantReply = iota
	wantErr
)

type ask struct {
	q    string
	a    *ref.Val // arguments; nil for none at all
	want wantReply
	what string
}

// variants draws a query of the given type, well-formed or lacking something.
func variant(r *rand.Rand, id string) ask {
	e := []ref.Entry{ref.E("id", ref.S(id))}
	hash := string(h.Bytes(r, 20))
	switch r.Intn(30) {
	case 0:
		hash = crawlerId
	case 1:
		hash = id
	case 2:
		hash = strings.Repeat("\x00", 20)
	}
	odd := func() (*ref.Val, string) {
		switch r.Intn(4) {
		case 0:
			return nil, "absent"
		case 1:
			return ref.L(ref.S("x")), "list"
		case 2:
			return ref.D(ref.E("k", ref.I(1))), "dict"
		}
		return nil, "absent"
	}
	switch r.Intn(9) {
	case 0:
		return ask{"ping", ref.D(e...), wantOK, "ping"}
	case 1:
		target, w := string(h.Bytes(r, 20)), "find_node"
		switch r.Intn(8) {
		case 0:
			target, w = crawlerId, "find_node for the crawler"
		case 1:
			target, w = id, "find_node for itself"
		case 2:
			target, w = strings.Repeat("\x00", 20), "find_node for zero"
		}
		return ask{"find_node", besides("find_node", target, append(e, ref.E("target", ref.S(target)))...), wantOK, w}
	case 2, 3:
		return ask{"get_peers", besides("get_peers", hash, append(e, ref.E("info_hash", ref.S(hash)))...), wantOK, "get_peers"}
	case 4, 5:
		port := r.Intn(65536)
		e = append(e, ref.E("info_hash", ref.S(hash)), ref.E("port", ref.I(int64(port))), ref.E("token", ref.S(string(h.Bytes(r, r.Intn([]int{12, 12, 60}[r.Intn(3)]))))))
		// a port nobody listens on: what follows the reply is not judged here
		w := "announce_peer"
		if r.Intn(2) == 0 {
			e = append([]ref.Entry{e[0], ref.E("implied_port", ref.I(int64(r.Intn(2))))}, e[1:]...)
			w += " implied_port"
		}
		return ask{"announce_peer", besides("announce_peer", hash, e...), wantOK, w}
	case 6:
		v, w := odd()
		if v == nil && r.Intn(3) == 0 {
			v, w = ref.I(int64(r.Intn(1000))), "number"
		}
		if v != nil {
			e = append(e, ref.E("info_hash", v))
		}
		return ask{"get_peers", ref.D(e...), wantErr, "get_peers info_hash " + w}
	case 7:
		v, w := odd()
		if v == nil && r.Intn(3) == 0 {
			v, w = ref.I(7), "number"
		}
		if v != nil {
			e = append(e, ref.E("info_hash", v))
		}
		e = append(e, ref.E("port", ref.I(6881)), ref.E("token", ref.S("t")))
		return ask{"announce_peer", ref.D(e...), wantErr, "announce_peer info_hash " + w}
	default:
		v, w := odd()
		if v == nil && r.Intn(3) == 0 {
			v, w = ref.S("6881"), "text"
		}
		e = append(e, ref.E("info_hash", ref.S(hash)))
		if v != nil {
			e = append(e, ref.E("port", v))
		}
		e = append(e, ref.E("token", ref.S("t")))
		return ask{"announce_peer", ref.D(e...), wantErr, "announce_peer port " + w}
	}
}

// someId is the id of a querier: mostly random, also the crawler's own (another
// crawler has the same built-in one) and ids many nodes use.
func someId(r *rand.Rand) string {
	switch r.Intn(16) {
	case 0:
		return crawlerId
	case 1:
		return strings.Repeat("\x00", 20)
	case 2:
		return "abcdefghij0123456789"
	case 3:
		return strings.Repeat("\xff", 20)
	}
	return string(h.Bytes(r, 20))
}

// busy asks very many times from one socket.
func busy(p *Proc, r *rand.Rand, n int) {
	R := h.R
	c := newClient("127.0.0.1", 0, r)
	defer c.S.Close()
	hash := string(h.Bytes(r, 20))
	for i := 0; i < n && R.Bad() < 3; i++ {
		a := ask{"ping", ref.D(ref.E("id", ref.S(c.Id))), wantOK, "ping of a busy node"}
		if i%8 == 1 {
			a = ask{"get_peers", ref.D(ref.E("id", ref.S(c.Id)), ref.E("info_hash", ref.S(hash))), wantOK, "get_peers of a busy node"}
		} else if i%8 == 2 {
			a = ask{"find_node", ref.D(ref.E("id", ref.S(c.Id)), ref.E("target", ref.S(hash))), wantOK, "find_node of a busy node"}
		}
		t := c.Tid()
		v := c.Ask(p.Addr, t, query(t, a.q, a.a), 20*time.Second)
		if v == nil {
			if p.Alive("answering one node") {
				if ok, _ := udpx.Lossless(p.Port, c.S.Addr.Port); ok {
					R.Violate("no-reply", fmt.Sprintf("no reply to query %d of one node within 20 s and no datagram was lost", i+1), h.Hex(query(t, a.q, a.a)))
				} else {
					R.Unclear("no reply to a query")
				}
			}
			return
		}
		if bad := judge(a, v); bad != "" {
			R.Violate("reply", fmt.Sprintf("query %d of one node: %s: %s", i+1, a.what, bad), h.Hex(ref.Encode(v)))
		}
		R.Count("replies_to_one_busy_node", 1)
	}
	R.Eval("busy")
}

// judge compares a reply with what the protocol demands.
func judge(a ask, v *ref.Val) string {
	y, _ := v.Str("y")
	switch a.want {
	case wantErr:
		if y != "e" {
			return fmt.Sprintf("answered with %q instead of an error", y)
		}
		l := v.Get("e")
		if l == nil || l.Kind != ref.List || len(l.L) != 2 || l.L[0].Kind != ref.Int || l.L[1].Kind != ref.Str {
			return "the error is not a list of a code and a text"
		}
		if l.L[0].I != 203 {
			return fmt.Sprintf("error code %d, the protocol error is 203", l.L[0].I)
		}
		return ""
	}
	if y != "r" {
		return fmt.Sprintf("answered with %q instead of a response: %s", y, h.Hex(ref.Encode(v)))
	}
	rr := v.Get("r")
	if rr == nil || rr.Kind != ref.Dict {
		return "the response has no body"
	}
	id, ok := rr.Str("id")
	if !ok || len(id) != 20 {
		return "the response has no 20-byte id"
	}
	if id != crawlerId {
		return fmt.Sprintf("the response carries id %x, the crawler's is %x", id, crawlerId)
	}
	switch a.q {
	case "find_node", "get_peers":
		n, ok := rr.Str("nodes")
		if !ok {
			return "no node list"
		}
		if len(n)%26 != 0 {
			return fmt.Sprintf("a node list of %d bytes", len(n))
		}
	}
	if a.q == "get_peers" {
		if t, ok := rr.Str("token"); !ok || t == "" {
			return "no token"
		}
	}
	return ""
}

func tidOf(r *rand.Rand, n int) string {
	b := h.Bytes(r, 1+r.Intn(6))
	if r.Intn(12) == 0 {
		b = h.Bytes(r, 1+r.Intn(250))
	}
	return string(b) + fmt.Sprintf("%05d", n)
}

func d07() {
	R := h.R
	R.Rule = "well-formed and argument-lacking queries of the four kinds from many IPv4 and IPv6 nodes at once; distinct = query variant x address family x transaction id length; oracle: reply fields compared with the protocol, discovery log and peers watched for effects of rejected queries"
	stop := h.Guard("hang", "query session", time.Duration(h.N(240, 3000))*time.Second)
	defer stop()
	for round := 0; round < h.N(9, 60) && R.Bad() < 3; round++ {
		p := start(Conf{Level: []string{"Error", "Info"}[round%2], Workers: []int{64, 4, 1}[round%3]})
		decoy := peerAt("127.0.0.1", 0) // rejected announcements name this host
		var wg sync.WaitGroup
		var accepted, noReply int64
		clients := 16
		for k := 0; k < clients; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				r := h.Rand("d07", round, k)
				ip, to := fmt.Sprintf("127.0.%d.%d", 1+k, []int{1 + r.Intn(250), 0, 255}[r.Intn(9)/4]), p.Addr
				fam := "4"
				if k%4 == 3 && have6 {
					ip, to, fam = "::1", to6(p.Port), "6"
				}
				c := newClient(ip, 0, r)
				defer c.S.Close()
				for i := 0; i < h.N(120, 600) && R.Bad() < 3; i++ {
					a := variant(r, someId(r))
					if a.want == wantErr && a.q == "announce_peer" && a.a.Get("port") != nil && a.a.Get("port").Kind == ref.Int {
						for j := range a.a.D {
							if a.a.D[j].K == "port" {
								a.a.D[j].V = ref.I(int64(decoy.Port()))
							}
						}
					}
					t := tidOf(r, i)
					if i == 31 {
						t = "" // as good an id as any
					}
					v := c.Ask(to, t, query(t, a.q, a.a), 20*time.Second)
					if v == nil {
						if !p.Alive("answering queries") {
							return
						}
						if ok, _ := udpx.Lossless(p.Port, c.S.Addr.Port); ok {
							R.Violate("no-reply", fmt.Sprintf("no reply to a %s query within 20 s and no datagram was lost", a.what), h.Hex(query(t, a.q, a.a)))
						} else {
							R.Unclear("no reply to a %s query", a.what)
						}
						atomic.AddInt64(&noReply, 1)
						continue
					}
					if bad := judge(a, v); bad != "" && !(t == "" && bad == "no token") {
						R.Violate("reply", fmt.Sprintf("%s: %s", a.what, bad), map[string]string{"query": h.Hex(query(t, a.q, a.a)), "reply": h.Hex(ref.Encode(v))})
					}
					if a.want == wantOK && (a.q == "get_peers" || a.q == "announce_peer") {
						atomic.AddInt64(&accepted, 1)
					}
					R.Eval(fmt.Sprintf("%s|%s|%d", a.what, fam, len(t)))
					R.Count("replies_checked", 1)
				}
				if odd, dup := c.Odd(); len(odd) > 0 || len(dup) > 0 {
					R.Violate("stray", fmt.Sprintf("%d datagrams that answer no query, %d second answers", len(odd), len(dup)), append(odd, dup...))
				}
			}(k)
		}
		wg.Wait()
		// rejected queries leave no trace: the log holds exactly the accepted
		if p.Alive("answering queries") && atomic.LoadInt64(&noReply) == 0 {
			var l []string
			h.Wait(5*time.Second, func() bool { l, _ = p.logLines(); return int64(len(l)) >= accepted })
			time.Sleep(50 * time.Millisecond)
			l, _ = p.logLines()
			if int64(len(l)) > accepted {
				R.Violate("rejected-logged", fmt.Sprintf("%d queries were accepted but the discovery log has %d lines", accepted, len(l)), nil)
			}
			R.Count("accepted_queries", accepted)
		}
		m, other := decoy.All()
		if n := len(m) + len(other); n > 0 {
			R.Violate("rejected-fetched", fmt.Sprintf("rejected announcements led to %d connections", n), nil)
		}
		decoy.Close()
		if round == 0 {
			busy(p, h.Rand("d07busy"), h.N(6000, 100000))
		}
		p.Kill()
	}
}

// ---- D09

func d09() {
	R := h.R
	R.Rule = "mixtures of accepted, rejected and unrelated datagrams from many clients; distinct = kind x address x port class of logged queries; oracle: multiset of accepted queries against the parsed lines of the discovery log, line by line"
	stop := h.Guard("hang", "discovery session", time.Duration(h.N(240, 3000))*time.Second)
	defer stop()
	for round := 0; round < h.N(12, 90) && R.Bad() < 3; round++ {
		conf := Conf{Level: []string{"Error", "Info", "Panic"}[round%3], Fetchers: 30}
		// in some rounds the queue of announcements is full nearly all the time
		full := round%4 == 3
		var silent net.Listener
		if full {
			conf.Queue, conf.Fetchers = 1+round%3, 1
			var err error
			if silent, err = net.Listen("tcp", ":0"); err != nil {
				h.Fatal("%v", err)
			}
		}
		p := start(conf)
		var mu sync.Mutex
		want := map[string]int{}
		unsure := map[string]int{}
		var wg sync.WaitGroup
		K := []int{1, 12, 40}[round%3]
		asks := h.N(1600, 4000)
		if round%12 == 5 {
			asks *= 8 // thousands within one second
		}
		for k := 0; k < K; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				r := h.Rand("d09", round, k)
				ip, to := fmt.Sprintf("127.%d.%d.%d", r.Intn(256), k, 1+r.Intn(250)), p.Addr
				if k%5 == 4 && have6 {
					ip, to = "::1", to6(p.Port)
				}
				c := newClient(ip, 0, r)
				defer c.S.Close()
				from := net.JoinHostPort(ip, fmt.Sprint(c.S.Addr.Port))
				last := ""
				for i := 0; i < asks/K && R.Bad() < 3; i++ {
					t := c.Tid()
					hash := string(h.Bytes(r, 20))
					if r.Intn(8) == 0 {
						hash = strings.Repeat(string([]byte{byte(r.Intn(256))}), 20)
					}
					// asked for before: by this client just now, or by anybody
					switch r.Intn(5) {
					case 0:
						if last != "" {
							hash = last
						}
					case 1:
						hash = string(h.Bytes(h.Rand("d09", round, "popular", r.Intn(3)), 20))
					}
					last = hash
					var b []byte
					key := ""
					switch r.Intn(10) {
					case 0, 1, 2:
						b = getPeers(t, c.Id, hash)
						key = "get_peer " + from + " " + hexs(hash) + " "
					case 3, 4, 5, 6:
						port := r.Intn(65536)
						switch r.Intn(12) {
						case 0:
							port = 0
						case 1:
							port = 65535
						case 2:
							port = 1
						}
						wild := r.Intn(6) == 0
						if wild {
							// no port at all, but a number all the same
							port = []int{65536, 70000, -1, -70000, 1 << 31, 1<<40 + 5, math.MinInt64, math.MaxInt64, 131072 + r.Intn(65536)}[r.Intn(9)]
						}
						if !wild && r.Intn(2) == 0 {
							// no fetch delays the session: the peer is this host, port closed
							port = 1 + r.Intn(1000)
						}
						if full && !wild && r.Intn(4) > 0 {
							port = silent.Addr().(*net.TCPAddr).Port
						}
						var imp *int
						if r.Intn(2) == 0 {
							x := 0
							if r.Intn(2) == 0 {
								x = anyTrue(r)
							}
							imp = &x
						}
						b = announce(t, c.Id, hash, port, imp)
						key = "announce_peer " + from + " " + hexs(hash) + " " + fmt.Sprint(port)
					case 7:
						b = query(t, "ping", ref.D(ref.E("id", ref.S(c.Id))))
					case 8:
						a := variant(r, c.Id)
						if a.want != wantErr {
							a = ask{"find_node", ref.D(ref.E("id", ref.S(c.Id)), ref.E("target", ref.S(hash))), wantOK, ""}
						}
						b = query(t, a.q, a.a)
					case 9:
						// traffic that is no query: garbage, responses, errors, truncated queries
						switch r.Intn(4) {
						case 0:
							c.S.Send(h.Bytes(r, 1+r.Intn(200)), to)
						case 1:
							c.S.Send(response(t, ref.D(ref.E("id", ref.S(c.Id)), ref.E("info_hash", ref.S(hash)))), to)
						case 2:
							x := getPeers(t, c.Id, hash)
							c.S.Send(x[:len(x)-1-r.Intn(len(x)-1)], to)
						case 3:
							c.S.Send(query(t, "get_peers", ref.D(ref.E("id", ref.S("short")), ref.E("info_hash", ref.S(hash)))), to)
						}
						R.Count("unrelated_datagrams", 1)
						continue
					}
					v := c.Ask(to, t, b, 20*time.Second)
					mu.Lock()
					if key != "" {
						y := ""
						if v != nil {
							y, _ = v.Str("y")
						}
						if y == "r" {
							want[key]++
						} else {
							unsure[key]++
							if v == nil {
								R.Unclear("an accepted query got no reply")
							}
						}
						R.Eval(fmt.Sprintf("%s|%d", key[:8], len(key)*40+int(hash[0])%40))
					}
					mu.Unlock()
				}
			}(k)
		}
		wg.Wait()
		if !p.Alive("logging discoveries") {
			return
		}
		n := 0
		for _, c := range want {
			n += c
		}
		var lines []string
		h.Wait(20*time.Second, func() bool { lines, _ = p.logLines(); return len(lines) >= n })
		time.Sleep(100 * time.Millisecond)
		lines, complete := p.logLines()
		if !complete {
			R.Violate("incomplete-line", "the discovery log ends in an incomplete line", lines[len(lines)-1])
		}
		got := map[string]int{}
		for _, l := range lines {
			x, bad := parseRecord(l)
			if bad != "" {
				R.Violate("garbled", "a line of the discovery log is "+bad, l)
				continue
			}
			got[x.key()]++
			R.Count("lines_checked", 1)
		}
		for k, c := range got {
			if c > want[k]+unsure[k] {
				if want[k] > 0 {
					R.Violate("logged-twice", fmt.Sprintf("a query was logged %d times: %s", c, k), nil)
				} else {
					R.Violate("logged-wrongly", "a line that corresponds to no accepted query: "+k, nil)
				}
			}
		}
		for k, c := range want {
			if got[k] < c {
				R.Violate("not-logged", fmt.Sprintf("an accepted query was logged %d times instead of %d: %s", got[k], c, k), similar(got, k))
			}
		}
		R.Count("accepted_queries", int64(n))
		if full {
			R.Count("accepted_with_full_queue", int64(n))
			silent.Close()
		}
		p.Kill()
	}
}

// similar finds what was logged with the same hash.
func similar(m map[string]int, k string) []string {
	f := strings.Fields(k)
	var l []string
	for x := range m {
		if len(f) > 2 && strings.Contains(x, f[2]) {
			l = append(l, x)
		}
	}
	sort.Strings(l)
	return l
}

// ---- D10

func d10() {
	R := h.R
	R.Rule = "announcements with and without implied port, over IPv4 and IPv6, in bursts, with serving, silent, refusing and decoy peers; distinct = family x implied port form x peer behaviour; oracle: connections counted per announcement at the expected and at the decoy addresses, handshake parsed"
	stop := h.Guard("hang", "announcement session", time.Duration(h.N(280, 3000))*time.Second)
	defer stop()
	for round := 0; round < h.N(6, 40) && R.Bad() < 3; round++ {
		p := start(Conf{Level: "Error", Fetchers: []int{40, 8, 1}[round%3], Queue: 4000})
		d10round(p, round, []int{500, 250, 12}[round%3])
		p.Kill()
	}
	R.Count("ipv6_available", map[bool]int64{true: 1}[have6])
}

// anyTrue is a value that says yes: anything but zero.
func anyTrue(r *rand.Rand) int {
	if r.Intn(2) == 0 {
		return 1
	}
	return []int{2, 3, 7, 16, 127, 128, 255, 256, 65535}[r.Intn(9)]
}

type place struct {
	ip     string
	udp    *Client
	atUdp  *peersim.Server // TCP at the UDP source port
	atPort *peersim.Server // TCP at another port
	closed int             // a port nobody listens on
	to     *net.UDPAddr
	mu     sync.Mutex
}

func newPlace(r *rand.Rand, ip string, to *net.UDPAddr) *place {
	x := &place{ip: ip, to: to}
	for i := 0; ; i++ {
		s, err := peersim.Listen(net.JoinHostPort(ip, "0"))
		if err != nil {
			h.Fatal("peer at %s: %v", ip, err)
		}
		c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(ip), Port: s.Port()})
		if err == nil {
			c.Close()
			x.atUdp = s
			x.udp = newClient(ip, s.Port(), r)
			break
		}
		s.Close()
		if i > 50 {
			h.Fatal("no port free for UDP and TCP: %v", err)
		}
	}
	// some peers listen next to the port they announce from
	for i := 0; i < 2 && x.atPort == nil && r.Intn(3) == 0; i++ {
		if s, err := peersim.Listen(net.JoinHostPort(ip, fmt.Sprint(x.atUdp.Port()+1-2*i))); err == nil {
			x.atPort = s
			h.R.Count("peers_on_neighbour_ports", 1)
		}
	}
	// some peers listen on a low port
	for i := 0; i < 20 && x.atPort == nil && r.Intn(2) == 0; i++ {
		if s, err := peersim.Listen(net.JoinHostPort(ip, fmt.Sprint(1+r.Intn(1023)))); err == nil {
			x.atPort = s
			h.R.Count("peers_on_low_ports", 1)
		}
	}
	if x.atPort == nil {
		x.atPort = peerAt(ip, 0)
	}
	x.closed = udpx.FreePort()
	return x
}

func (x *place) Close() {
	x.udp.S.Close()
	x.atUdp.Close()
	x.atPort.Close()
}

func d10round(p *Proc, round, n int) {
	R := h.R
	r := h.Rand("d10", round)
	var places []*place
	for i := 0; i < 8; i++ {
		ip, to := ip4(127, 1+r.Intn(200), r.Intn(256), []int{1 + r.Intn(250), 0, 255}[r.Intn(9)/4]), p.Addr
		if i%4 == 3 && have6 {
			ip, to = "::1", to6(p.Port)
		}
		places = append(places, newPlace(r, ip, to))
	}
	defer func() {
		for _, x := range places {
			x.Close()
		}
	}()
	type exp struct {
		hash  string
		at    *peersim.Server
		what  string
		times int // how often it was announced and accepted
	}
	var mu sync.Mutex
	var want []exp
	var unsure sync.Map
	silent := func(c *peersim.Conn) { c.Gone(30 * time.Second) }
	closing := func(c *peersim.Conn) {}
	send := func(i int) {
		r := h.Rand("d10", round, i)
		x := places[r.Intn(len(places))]
		meta := h.Bytes(r, 20+r.Intn(3000))
		hash := peersim.Hash(meta)
		var imp *int
		form := r.Intn(4)
		port := x.atPort.Port()
		at := x.atPort
		switch form {
		case 1:
			z := 0
			imp = &z
		case 2:
			z := anyTrue(r)
			imp = &z
			at = x.atUdp
		case 3:
			z := anyTrue(r)
			imp = &z
			at = x.atUdp
			port = []int{0, 1, 65535, x.closed}[r.Intn(4)]
		}
		behave := r.Intn(10)
		if n < 50 && behave == 8 {
			behave = 7
		}
		what := fmt.Sprintf("%s implied=%d", map[bool]string{true: "ipv6", false: "ipv4"}[strings.Contains(x.ip, ":")], form)
		switch behave {
		case 7:
			switch list := peersim.Hostile(); r.Intn(3) {
			case 0:
				at.Plan(hash, closing)
				what += " closes"
			case 1:
				// a well-behaved peer with something else
				at.Plan(hash, peersim.RandomCoop(r, h.Bytes(r, 1+r.Intn(60000))).Play(r.Int63()))
				what += " lies"
			default:
				x := list[r.Intn(len(list))]
				for x.Heavy {
					x = list[r.Intn(len(list))]
				}
				at.Plan(hash, x.Script(rand.New(rand.NewSource(r.Int63()))))
				what += " misbehaves"
			}
		case 8:
			at.Plan(hash, silent)
			what += " silent"
		case 9:
			if form < 2 {
				// nobody there: costs nobody else their fetch
				port = x.closed
				at = nil
				what += " refused"
			} else {
				at.Plan(hash, closing)
				what += " closes"
			}
		default:
			at.Plan(hash, peersim.RandomCoop(r, meta).Play(r.Int63()))
			what += " serves"
		}
		// an announcement made again is an announcement
		times := 1
		if n > 50 && behave < 8 && r.Intn(6) == 0 {
			times = 2 + r.Intn(3)
			what += " announced repeatedly"
		}
		for k := 0; k < times; k++ {
			t := x.udp.Tid()
			v := x.udp.Ask(x.to, t, announce(t, x.udp.Id, hash, port, imp), 20*time.Second)
			if v == nil {
				R.Unclear("an announcement got no reply")
				unsure.Store(hash, true)
				return
			}
			if y, _ := v.Str("y"); y != "r" {
				R.Violate("announce-rejected", "a well-formed announcement was answered with "+y, h.Hex(ref.Encode(v)))
				return
			}
		}
		mu.Lock()
		want = append(want, exp{hash, at, what, times})
		mu.Unlock()
	}
	// some one by one, most in bursts
	var wg sync.WaitGroup
	for i := 0; i < n; {
		burst := 1
		if i > 5 {
			burst = 1 + r.Intn(60)
		}
		for k := 0; k < burst && i < n; k++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); send(i) }(i)
			i++
		}
		wg.Wait()
	}
	seen := func(e exp) int {
		if e.at == nil {
			return e.times
		}
		return len(e.at.Logs(e.hash))
	}
	if !h.Wait(60*time.Second, func() bool {
		if p.exited() {
			return true
		}
		for _, e := range want {
			if seen(e) < e.times {
				return false
			}
		}
		return true
	}) {
		lost := 0
		ex := ""
		for _, e := range want {
			if seen(e) < e.times {
				lost++
				ex = e.what
			}
		}
		R.Violate("lost", fmt.Sprintf("%d of %d accepted announcements led to no connection within a minute, for instance: %s", lost, len(want), ex), nil)
	}
	if !p.Alive("fetching announced torrents") {
		return
	}
	time.Sleep(400 * time.Millisecond) // duplicates would come now
	byHash := map[string]exp{}
	for _, e := range want {
		byHash[e.hash] = e
		if e.at == nil {
			R.Eval(e.what)
			continue
		}
		l := e.at.Logs(e.hash)
		if len(l) > e.times {
			R.Violate("duplicated", fmt.Sprintf("%d announcements (%s) led to %d connections", e.times, e.what, len(l)), nil)
		}
		R.Count("announcements", int64(e.times))
		R.Eval(e.what)
		R.Count("connections_matched", int64(len(l)))
	}
	for i, x := range places {
		for _, s := range []*peersim.Server{x.atUdp, x.atPort} {
			m, other := s.All()
			for hash, l := range m {
				e, ok := byHash[hash]
				switch {
				case !ok:
					if _, ok := unsure.Load(hash); !ok {
						R.Violate("wrong-hash", fmt.Sprintf("a connection asked for %x which nobody announced", hash), nil)
					}
				case e.at != s:
					R.Violate("wrong-place", fmt.Sprintf("an announcement (%s) was fetched from %s, announced was %s", e.what, s.Addr(), map[bool]string{true: "a closed port", false: ""}[e.at == nil]), nil)
				}
				for _, lg := range l {
					host, _, _ := net.SplitHostPort(lg.From)
					_ = host
					b, _ := lg.Recv()
					if bad, _ := peersim.Check(b, hash, peerId, 0, -1, false, true); bad != "" && len(b) <= 68 {
						R.Violate("handshake", bad, h.Hex(b))
					}
				}
			}
			// a connection that ended before its handshake: only when the crawler
			// itself gave up; none is expected
			if len(other) > 0 {
				R.Count("connections_without_handshake", int64(len(other)))
				for _, lg := range other {
					b, _ := lg.Recv()
					if len(b) == 0 && i >= 0 {
						R.Violate("no-handshake", "a connection of the crawler carried no handshake", nil)
					}
				}
			}
		}
	}
	R.Count("announcements", int64(len(want)))
}
