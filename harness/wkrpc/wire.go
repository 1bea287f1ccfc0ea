package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"

	"verifharness/h"
	"verifharness/ref"
	"verifharness/udpx"
)

// ---- K08: what leaves is what was given

// wired is one message under way: who must get it, and what it must be.
type wired struct {
	want  string // canonical text
	desc  string
	socks map[int]bool
	got   map[int]int
	done  chan int
}

type wire struct {
	mu    sync.Mutex
	msgs  map[string]*wired // by transaction id
	socks []*udpx.Sock
	s     *srv
}

func (w *wire) on(j int, p udpx.Packet) {
	R := h.R
	to := w.socks[j].Addr.String()
	if p.From.Port != w.s.port {
		R.Violate("source", fmt.Sprintf("a datagram for %s came from %s, not from the server's socket", to, p.From), h.Hex(p.B))
	}
	v, n, st := ref.Parse(string(p.B))
	if st == ref.Bad || n != len(p.B) || v.Kind != ref.Dict {
		R.Violate("malformed", "a datagram to "+to+" is not one bencoded dictionary", h.Hex(p.B))
		return
	}
	t, _ := v.Str("t")
	w.mu.Lock()
	defer w.mu.Unlock()
	m := w.msgs[t]
	if m == nil {
		R.Violate("unknown", "a datagram to "+to+" carries a transaction id of no message sent", h.Hex(p.B))
		return
	}
	if !m.socks[j] {
		R.Violate("wrong-address", fmt.Sprintf("%s arrived at %s, where nobody sent it", m.desc, to), h.Hex(p.B))
		return
	}
	// the order of entries is not judged here
	if got := string(ref.Encode(v)); got != m.want || len(got) != len(p.B) {
		R.Violate("content", m.desc+": the datagram holds something else than was given", map[string]string{"want": h.HexS(m.want), "got": h.Hex(p.B)})
	}
	m.got[j]++
	if m.got[j] > 1 {
		R.Violate("twice", m.desc+" was sent twice to "+to, h.Hex(p.B))
		return
	}
	R.Max("largest_datagram", int64(len(p.B)))
	m.done <- j
}

// expect registers a message; the result is ready when every socket has it.
func (w *wire) expect(t, desc string, v *ref.Val, socks ...int) *wired {
	m := &wired{want: string(ref.Encode(v)), desc: desc, socks: map[int]bool{}, got: map[int]int{}, done: make(chan int, len(socks)+1)}
	for _, j := range socks {
		m.socks[j] = true
	}
	w.mu.Lock()
	w.msgs[t] = m
	w.mu.Unlock()
	return m
}

func (w *wire) arrived(m *wired, limit time.Duration) bool {
	end := time.After(limit)
	for range m.socks {
		select {
		case <-m.done:
		case <-end:
			var ports []int
			for j := range m.socks {
				ports = append(ports, w.socks[j].Addr.Port)
			}
			missing("never-sent", fmt.Sprintf("%s (%d bytes) was reported sent and did not arrive within %v", m.desc, len(m.want), limit), h.HexS(m.want), ports...)
			return false
		}
	}
	return true
}

func anyBytes(r *rand.Rand, max int) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return string(h.Bytes(r, r.Intn(max+1)))
	case 2:
		return "5:abcde"[:r.Intn(8)]
	case 3:
		return []string{"\x00", "e", "ee", "i1e", "日本語", "\xff\xfe", "a\nb", "%s%d", "\"quoted\"", "<&>"}[r.Intn(10)]
	}
	return string(h.Bytes(r, 20))
}

func anyPort(r *rand.Rand) int {
	return []int{0, 1, 255, 256, 1023, 6881, 21000, 32768, 65535, 65536, -1, 1 << 40, r.Intn(65536)}[r.Intn(13)]
}

func queryVal(t, q string, a *ref.Val) *ref.Val {
	return ref.D(ref.E("a", a), ref.E("q", ref.S(q)), ref.E("t", ref.S(t)), ref.E("y", ref.S("q")))
}

func respVal(t string, r *ref.Val) *ref.Val {
	return ref.D(ref.E("r", r), ref.E("t", ref.S(t)), ref.E("y", ref.S("r")))
}

func errVal(t string, code int64, msg string) *ref.Val {
	return ref.D(ref.E("e", ref.L(ref.I(code), ref.S(msg))), ref.E("t", ref.S(t)), ref.E("y", ref.S("e")))
}

// toMisc is a message value as the code under test takes it.
func toMisc(v *ref.Val) interface{} {
	switch v.Kind {
	case ref.Int:
		return int(v.I)
	case ref.Str:
		return v.S
	case ref.List:
		l := misc.List{}
		for _, x := range v.L {
			l = append(l, toMisc(x))
		}
		return l
	}
	d := misc.Dict{}
	for _, e := range v.D {
		d[e.K] = toMisc(e.V)
	}
	return d
}

// anyDict is an argument or result section of up to about max bytes.
func anyDict(r *rand.Rand, max int) *ref.Val {
	v := ref.D(ref.E("id", ref.S(anyBytes(r, 30))))
	for _, k := range []string{"", "a", "list", "n", "nested", "port", "s", "\x00\xff"} {
		if r.Intn(3) == 0 {
			v.D = append(v.D, ref.E(k, randVal(r, 2)))
		}
	}
	if r.Intn(3) == 0 {
		v.D = append(v.D, ref.E("zz", ref.S(string(h.Bytes(r, r.Intn(max+1))))))
	}
	return v
}

func someNodes(r *rand.Rand, max int) (nodes []*dht.NodeInfo, compact string) {
	for n := r.Intn(max + 1); n > 0; n-- {
		id, ip, port := string(h.Bytes(r, 20)), h.Bytes(r, 4), r.Intn(65536)
		nodes = append(nodes, dht.NewNodeInfo(id, &net.UDPAddr{IP: net.IP(ip), Port: port}))
		b := make([]byte, 2)
		binary.BigEndian.PutUint16(b, uint16(port))
		compact += id + string(ip) + string(b)
	}
	return
}

// anyQuery is a query made by one of the constructors, and what it must be.
func anyQuery(r *rand.Rand, t string, max int, f krpc.RpcHandlerFunc) (krpc.Request, *ref.Val, string) {
	id, x := anyBytes(r, 40), anyBytes(r, max)
	switch r.Intn(6) {
	case 0:
		return dht.WithPingMsg(t, id, f), queryVal(t, "ping", ref.D(ref.E("id", ref.S(id)))), "a ping query"
	case 1:
		return dht.WithFindNodeMsg(t, id, x, f), queryVal(t, "find_node", ref.D(ref.E("id", ref.S(id)), ref.E("target", ref.S(x)))), "a find_node query"
	case 2:
		return dht.WithGetPeersMsg(t, id, x, f), queryVal(t, "get_peers", ref.D(ref.E("id", ref.S(id)), ref.E("info_hash", ref.S(x)))), "a get_peers query"
	case 3:
		tok, port := anyBytes(r, 60), anyPort(r)
		return dht.WithAnnouncePeerMsg(t, id, x, tok, port, f), queryVal(t, "announce_peer", ref.D(ref.E("id", ref.S(id)), ref.E("implied_port", ref.I(0)), ref.E("info_hash", ref.S(x)), ref.E("port", ref.I(int64(port))), ref.E("token", ref.S(tok)))), "an announce_peer query"
	}
	q := append(append([]string{}, kinds...), "vote", anyBytes(r, 30))[r.Intn(6)]
	a := anyDict(r, max)
	return krpc.NewBaseRequest(t, q, toMisc(a).(misc.Dict), f), queryVal(t, q, a), fmt.Sprintf("a query of type %q", q)
}

// anyAnswer is what a handler may write, and what must be sent.
func anyAnswer(r *rand.Rand, t string, max int) (krpc.Response, *ref.Val, string) {
	id := anyBytes(r, 40)
	base := []ref.Entry{ref.E("id", ref.S(id))}
	switch r.Intn(8) {
	case 0:
		return dht.WithPingResponse(t, id), respVal(t, ref.D(base...)), "a ping response"
	case 1:
		return dht.WithAnnouncePeerResponse(t, id), respVal(t, ref.D(base...)), "an announce_peer response"
	case 2:
		n, c := someNodes(r, 1+max/26)
		return dht.WithFindNodeResponse(t, id, n), respVal(t, ref.D(append(base, ref.E("nodes", ref.S(c)))...)), "a find_node response"
	case 3:
		tok := anyBytes(r, 60)
		n, c := someNodes(r, 1+max/26)
		return dht.WithGetPeersNodesResponse(t, id, tok, n), respVal(t, ref.D(append(base, ref.E("nodes", ref.S(c)), ref.E("token", ref.S(tok)))...)), "a get_peers response with nodes"
	case 4:
		tok := anyBytes(r, 60)
		var addrs []*net.UDPAddr
		l := ref.L()
		for n := r.Intn(2 + max/10); n > 0; n-- {
			ip, port := h.Bytes(r, 4), r.Intn(65536)
			addrs = append(addrs, &net.UDPAddr{IP: net.IP(ip), Port: port})
			l.L = append(l.L, ref.S(string(ip)+string([]byte{byte(port >> 8), byte(port)})))
		}
		return dht.WithGetPeersValsResponse(t, id, tok, addrs), respVal(t, ref.D(append(base, ref.E("token", ref.S(tok)), ref.E("values", l))...)), "a get_peers response with peers"
	case 5:
		code, msg := []int{201, 202, 203, 204, 0, -1, 1 << 40, r.Intn(1000)}[r.Intn(8)], anyBytes(r, max)
		return krpc.WithErr(t, code, msg), errVal(t, int64(code), msg), "an error message"
	case 6:
		msg := "x" + anyBytes(r, max)
		return krpc.WithParamErr(t, msg), errVal(t, 203, msg), "a protocol error message"
	}
	d := anyDict(r, max)
	return krpc.WithResponse(t, toMisc(d).(misc.Dict)), respVal(t, d), "a response"
}

// foreign hides something no message can carry in an argument section.
func foreign(r *rand.Rand) misc.Dict {
	x := []interface{}{1.5, nil, true, []byte("ab"), map[string]int{"a": 1}, struct{}{}, uint64(7), func() {}, []string{"a"}}[r.Intn(9)]
	switch r.Intn(4) {
	case 0:
		x = misc.List{1, "a", x}
	case 1:
		x = misc.Dict{"k": x, "a": 1}
	case 2:
		x = misc.List{misc.Dict{"deep": misc.List{x}}}
	}
	return misc.Dict{"id": serverId, "x": x, "n": 5}
}

func k08() {
	R := h.R
	R.Rule = "queries made by every constructor sent to sockets at many IPv4 and IPv6 addresses from many goroutines, and responses and errors written by handlers of the real server, with arguments of any bytes and sizes from nothing to the largest datagram; queries that cannot be encoded or sent; distinct = the messages' canonical texts; oracle: an independent parser finds in exactly one datagram, at exactly the right socket, exactly the given content; errors are reported and nothing arrives"
	stop := h.Guard("hang", "sending", time.Duration(h.N(200, 3000))*time.Second)
	defer stop()
	for round := 0; round < h.N(4, 60) && !R.Violated(); round++ {
		k08round(round)
	}
}

func k08round(round int) {
	R := h.R
	w := &wire{msgs: map[string]*wired{}}
	var amu sync.Mutex
	answers := map[int]krpc.Response{}
	host := ""
	if round%3 == 2 {
		host = "127.0.0.1"
	}
	w.s = start(host, func(s *krpc.RpcServer) {
		for _, k := range kinds {
			s.RegisteHandler(k, func(c *krpc.RpcContext) {
				b := c.Request().Body()
				amu.Lock()
				a := answers[b.GetInteger("i")]
				amu.Unlock()
				c.WriteAs(a)
			})
		}
	})
	defer w.s.s.Close()
	const G = 8
	var mine [G][]int // each goroutine has sockets of its own, so that they drain
	v6 := false
	ready := make(chan struct{})
	for i := 0; i < 3*G; i++ {
		j := i
		last := 1 + i*9
		if i%5 == 0 {
			last = 255 * (i % 2)
		}
		ip := fmt.Sprintf("127.0.%d.%d", 1+i%3, last)
		if i%3 == 2 && host == "" {
			ip = "::1"
		}
		k, err := udpx.Listen(ip, 0, func(p udpx.Packet) { <-ready; w.on(j, p) })
		if err != nil && ip == "::1" {
			k, err = udpx.Listen("127.0.0.1", 0, func(p udpx.Packet) { <-ready; w.on(j, p) })
		} else if err == nil && ip == "::1" {
			v6 = true
		}
		if err != nil {
			h.Fatal("client socket: %v", err)
		}
		w.socks = append(w.socks, k)
		mine[i%G] = append(mine[i%G], i)
	}
	close(ready)
	defer func() {
		for _, k := range w.socks {
			k.Close()
		}
	}()
	if v6 {
		R.Count("rounds_with_ipv6", 1)
	}
	// whoever asks for an answer that cannot be sent gets a complete message or nothing
	odd := sock("127.0.0.1", func(p udpx.Packet) {
		v, n, st := ref.Parse(string(p.B))
		t, _ := v.Str("t")
		if st != ref.OK || n != len(p.B) || !strings.HasPrefix(t, "odd") {
			R.Violate("malformed-reply", fmt.Sprintf("the answer of a handler cannot be encoded: a datagram of %d bytes that is no complete message with the query's transaction id was sent", len(p.B)), h.Hex(p.B))
		}
		R.Count("replies_instead_of_unsendable_ones", 1)
	})
	defer odd.Close()
	var ctr int64
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := h.Rand("k08", round, g)
			for n := 0; n < h.N(500, 1500) && R.Bad() < 3; n++ {
				c := atomic.AddInt64(&ctr, 1)
				t := fmt.Sprintf("%s.%d", tid(r), c)
				max := []int{20, 20, 200, 800, 1500, 9000}[r.Intn(6)]
				if r.Intn(60) == 0 {
					max = 63000
				}
				if n%2 == 0 && r.Intn(40) == 0 {
					t += string(h.Bytes(r, r.Intn(20000)))
				}
				if r.Intn(25) == 0 {
					t += string(h.Bytes(r, r.Intn(400)))
				}
				to := mine[g][r.Intn(len(mine[g]))]
				switch {
				case n%2 == 0:
					req, want, desc := anyQuery(r, t, max, nil)
					socks := []int{to}
					if r.Intn(6) == 0 {
						// one request to several nodes
						socks = mine[g]
					}
					m := w.expect(t, desc, want, socks...)
					if len(m.want) > 65000 {
						continue
					}
					h.Journal("k08 %s %s", desc, h.HexS(m.want))
					for _, j := range socks {
						if err := w.s.s.Query(w.socks[j].Addr, req); err != nil {
							R.Violate("refused", fmt.Sprintf("sending %s of %d bytes to %s failed: %v", desc, len(m.want), w.socks[j].Addr, err), h.HexS(m.want))
							return
						}
					}
					if !w.arrived(m, 8*time.Second) {
						return
					}
					R.Eval(m.want)
					R.Count("queries_sent", int64(len(socks)))
					if n < 4 && g == 0 && round == 0 {
						R.Sample(map[string]string{"message": desc, "wire": h.HexS(m.want)})
					}
				default:
					a, want, desc := anyAnswer(r, t, max)
					m := w.expect(t, desc, want, to)
					if len(m.want) > 65000 {
						continue
					}
					h.Journal("k08 %s %s", desc, h.HexS(m.want))
					amu.Lock()
					answers[int(c)] = a
					amu.Unlock()
					dst := &net.UDPAddr{IP: net.ParseIP("127.0.0.1"), Port: w.s.port}
					if w.socks[to].Addr.IP.To4() == nil {
						dst.IP = net.IPv6loopback
					}
					w.socks[to].Send(query(t, kinds[r.Intn(4)], ref.D(ref.E("i", ref.I(c)), ref.E("id", ref.S("abcdefghij0123456789")))), dst)
					if !w.arrived(m, 8*time.Second) {
						return
					}
					amu.Lock()
					delete(answers, int(c))
					amu.Unlock()
					R.Eval(m.want)
					R.Count("replies_sent", 1)
				}
				if r.Intn(12) == 0 {
					c := atomic.AddInt64(&ctr, 1)
					t := fmt.Sprintf("odd%d", c)
					body := foreign(r)
					amu.Lock()
					answers[int(c)] = krpc.WithResponse(t, body)
					amu.Unlock()
					h.Journal("k08 an answer that cannot be encoded %s", t)
					odd.Send(query(t, kinds[r.Intn(4)], ref.D(ref.E("i", ref.I(c)), ref.E("id", ref.S("abcdefghij0123456789")))), udpx.Loop(w.s.port))
					R.Eval("odd answer" + t)
					R.Count("unsendable_replies", 1)
				}
				if r.Intn(8) == 0 && !w.unsendable(r, t+"!", w.socks[to].Addr) {
					return
				}
			}
		}(g)
	}
	wg.Wait()
	// whatever arrives late arrives twice, or was never to be sent
	time.Sleep(150 * time.Millisecond)
}

// unsendable tries what cannot be sent: an error must be reported. (Anything
// that arrives for it is a message nobody sent.)
func (w *wire) unsendable(r *rand.Rand, t string, to *net.UDPAddr) bool {
	R := h.R
	var req krpc.Request
	desc := ""
	switch r.Intn(4) {
	case 0, 1:
		b := foreign(r)
		req = krpc.NewBaseRequest(t, "ping", b, nil)
		desc = fmt.Sprintf("a query holding %T", b["x"])
	case 2:
		req = dht.WithGetPeersMsg(t, serverId, string(make([]byte, 65508+r.Intn(40000))), nil)
		desc = "a query larger than a datagram"
	default:
		req = dht.WithPingMsg(t, serverId, nil)
		to = &net.UDPAddr{IP: to.IP, Port: 0}
		desc = "a query to port 0"
	}
	h.Journal("k08 %s", desc)
	var err error
	p, bad := h.Try(func() { err = w.s.s.Query(to, req) })
	R.Eval("unsendable " + desc + t)
	R.Count("unsendable_queries", 1)
	if bad {
		R.Violate("panic", fmt.Sprintf("%s: the server panicked to the sender: %v", desc, p), nil)
		return false
	}
	if err == nil {
		R.Violate("success-reported", desc+" was reported as sent", nil)
		return false
	}
	return true
}
