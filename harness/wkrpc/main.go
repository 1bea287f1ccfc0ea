// Worker for the RPC server properties: the real krpc.RpcServer and UdpServer
// of /repo, driven over loopback UDP sockets.
package main

import (
	"fmt"
	"net"
	"os"
	"sync"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"

	"verifharness/h"
	"verifharness/ref"
	"verifharness/udpx"
)

func main() {
	h.Init()
	// the worker's own stdout is /dev/null, so the real logging runs too
	misc.SetLevel(misc.INFO)
	switch h.Prop {
	case "K01":
		k01()
	case "K02":
		k02()
	case "K03":
		k03()
	case "K04":
		k04()
	case "K05":
		k05()
	case "K06":
		k06()
	case "K07":
		k07()
	case "K08":
		k08()
	case "R01":
		r01()
	default:
		h.Fatal("unknown property %q", h.Prop)
	}
	h.R.Finish()
	os.Exit(0)
}

const serverId = "SERVERserver01234567"

type srv struct {
	s    *krpc.RpcServer
	port int
	addr *net.UDPAddr // where IPv4 clients send to
}

func start(host string, prep func(s *krpc.RpcServer)) *srv {
	for i := 0; i < 100; i++ {
		port := udpx.FreePort()
		var s *krpc.RpcServer
		p, failed := h.Try(func() { s = krpc.NewRpcServer(fmt.Sprintf("%s:%d", host, port)) })
		if failed {
			if i > 90 {
				h.Fatal("cannot start a server: %v", p)
			}
			continue
		}
		if prep != nil {
			prep(s)
		}
		go s.Listen()
		return &srv{s: s, port: port, addr: udpx.Loop(port)}
	}
	h.Fatal("cannot find a free port")
	return nil
}

// query is the canonical datagram of a query.
func query(t, q string, a *ref.Val) []byte {
	return ref.Encode(ref.D(ref.E("a", a), ref.E("q", ref.S(q)), ref.E("t", ref.S(t)), ref.E("y", ref.S("q"))))
}

func response(t string, r *ref.Val) []byte {
	return ref.Encode(ref.D(ref.E("r", r), ref.E("t", ref.S(t)), ref.E("y", ref.S("r"))))
}

func tid(r interface{ Intn(int) int }) string {
	n := 1 + r.Intn(8)
	switch r.Intn(24) {
	case 0, 1:
		n = 9 + r.Intn(60)
	case 2:
		n = 60 + r.Intn(240)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return string(b)
}

// inbox collects what a socket received.
type inbox struct {
	mu sync.Mutex
	p  []udpx.Packet
}

func (b *inbox) on(p udpx.Packet) {
	b.mu.Lock()
	b.p = append(b.p, p)
	b.mu.Unlock()
}

func (b *inbox) take() []udpx.Packet {
	b.mu.Lock()
	defer b.mu.Unlock()
	p := b.p
	b.p = nil
	return p
}

func (b *inbox) len() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.p)
}

func sock(ip string, on func(udpx.Packet)) *udpx.Sock {
	s, err := udpx.Listen(ip, 0, on)
	if err != nil {
		h.Fatal("client socket on %s: %v", ip, err)
	}
	return s
}

// missing decides what an absent datagram means: nothing if the kernel lost
// datagrams at one of the ports, a violation otherwise.
func missing(key, desc string, w interface{}, ports ...int) {
	ok, known := udpx.Lossless(ports...)
	switch {
	case ok:
		h.R.Violate(key, desc+" (the kernel dropped no datagram)", w)
	case known:
		h.R.Unclear("%s, but the kernel dropped datagrams", desc)
	default:
		h.R.Unclear("%s, and the kernel's drop counters are not readable", desc)
	}
}

// prober asks well-formed pings and wants each answered.
type prober struct {
	s   *srv
	c   *udpx.Sock
	in  inbox
	n   int
	bad bool
	// where the answers come in
	take func() []udpx.Packet
}

func newProber(s *srv) *prober {
	p := &prober{s: s}
	p.c, p.take = sock("127.0.0.1", p.in.on), p.in.take
	return p
}

// alive sends one ping and waits for its answer.
func (p *prober) alive(what string) bool {
	if p.bad {
		return false
	}
	for try := 0; try < 4; try++ {
		p.n++
		t := fmt.Sprintf("p%d", p.n)
		p.c.Send(query(t, "ping", ref.D(ref.E("id", ref.S("PROBERprober01234567")))), p.s.addr)
		got := false
		h.Wait(8*time.Second, func() bool {
			for _, x := range p.take() {
				v, n, st := ref.Parse(string(x.B))
				if st == ref.OK && n == len(x.B) {
					if s, _ := v.Str("t"); s == t {
						if y, _ := v.Str("y"); y == "r" {
							got = true
						}
					}
				}
			}
			return got
		})
		h.R.Count("liveness_probes", 1)
		if got {
			return true
		}
		if ok, known := udpx.Lossless(p.s.port, p.c.Addr.Port); ok {
			p.bad = true
			h.R.Violate("stopped-answering", "a well-formed ping got no answer "+what+" (the kernel dropped no datagram)", h.HexS(t))
			return false
		} else if !known && try == 3 {
			p.bad = true
			h.R.Violate("stopped-answering", "four well-formed pings in a row got no answer "+what, h.HexS(t))
			return false
		}
		h.R.Count("probes_lost_by_kernel", 1)
	}
	p.bad = true
	h.R.Violate("stopped-answering", "four well-formed pings in a row got no answer "+what, nil)
	return false
}

// plainHandlers answers like the real crawler's handlers do.
func plainHandlers(s *krpc.RpcServer) {
	s.RegisteHandler("ping", func(c *krpc.RpcContext) {
		c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": serverId}))
	})
	s.RegisteHandler("find_node", func(c *krpc.RpcContext) {
		b := c.Request().Body()
		c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": serverId, "nodes": "", "tlen": len(b.GetStringOrDefault("target", ""))}))
	})
	s.RegisteHandler("get_peers", func(c *krpc.RpcContext) {
		b := c.Request().Body()
		ih := b.GetString("info_hash")
		c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": serverId, "nodes": "", "token": ih}))
	})
	s.RegisteHandler("announce_peer", func(c *krpc.RpcContext) {
		b := c.Request().Body()
		b.GetString("info_hash")
		b.GetInteger("port")
		c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": serverId}))
	})
}

func r01() {
	h.R.Rule = "the concurrent workloads of the RPC server monitors (queries, responses, middleware, retained packets, closing) in one process under the race detector; oracle: the race detector's reports"
	rule := h.R.Rule
	k01()
	k04()
	k05()
	k06()
	k07()
	quiet()
	h.R.Rule = rule
}

// quiet has many messages of one kind handled at the same time while nothing is
// printed: what is printed orders the accesses around it, and hides races. Every
// branch of the server has its turn.
func quiet() {
	misc.SetLevel(misc.PANIC)
	defer misc.SetLevel(misc.INFO)
	s := start("", func(s *krpc.RpcServer) {
		plainHandlers(s)
		s.RegisteHandler("find_node", func(c *krpc.RpcContext) {
			// cannot be encoded
			c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": serverId, "x": 1.5}))
		})
		s.RegisteHandler("announce_peer", func(c *krpc.RpcContext) {
			b := c.Request().Body()
			boom(b.GetInteger("port"))
		})
	})
	id := ref.S("PROBERprober01234567")
	sink := sock("127.0.0.1", nil)
	var cs []*udpx.Sock
	for i := 0; i < 6; i++ {
		cs = append(cs, sock("127.0.0.1", nil))
	}
	kinds := []func(t string, i int) []byte{
		func(t string, i int) []byte { return query(t, "ping", ref.D(ref.E("id", id))) },
		func(t string, i int) []byte { return query(t, "ping", ref.D(ref.E("id", ref.S("short")))) },
		func(t string, i int) []byte { return query(t, "ping", ref.D()) },
		func(t string, i int) []byte { return query(t, "vote", ref.D(ref.E("id", id))) },
		func(t string, i int) []byte { return query(t, "PING", ref.D(ref.E("id", id))) },
		func(t string, i int) []byte { return query(t, "get_peers", ref.D(ref.E("id", id))) },
		func(t string, i int) []byte { return query(t, "find_node", ref.D(ref.E("id", id))) },
		func(t string, i int) []byte {
			return query(t, "announce_peer", ref.D(ref.E("id", id), ref.E("info_hash", id), ref.E("port", ref.I(int64(i%9)))))
		},
		func(t string, i int) []byte { return response(t, ref.D(ref.E("id", id))) },
		func(t string, i int) []byte { return response("unknown"+t, ref.D(ref.E("id", id))) },
		func(t string, i int) []byte { return response(t, ref.I(1)) },
		func(t string, i int) []byte {
			return ref.Encode(ref.D(ref.E("e", ref.L(ref.I(201), ref.S(t))), ref.E("t", ref.S(t)), ref.E("y", ref.S("e"))))
		},
		func(t string, i int) []byte { return []byte("d1:t" + t) },
		func(t string, i int) []byte { return ref.Encode(ref.D(ref.E("t", ref.S(t)))) },
		func(t string, i int) []byte { return ref.Encode(ref.D(ref.E("t", ref.S(t)), ref.E("y", ref.S("z")))) },
		nil, // queries that leave, that cannot be sent and that cannot be encoded
		nil,
		nil,
	}
	for k, kind := range kinds {
		for round := 0; round < h.N(3, 20); round++ {
			var wg sync.WaitGroup
			for w := range cs {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for i := 0; i < 80; i++ {
						t := fmt.Sprintf("%d.%d.%d.%d", k, round, w, i)
						switch {
						case kind != nil:
							if k == 8 {
								s.s.Query(sink.Addr, krpc.NewBaseRequest(t, "ping", misc.Dict{"id": serverId}, func(*krpc.RpcContext) {}))
							}
							cs[w].Send(kind(t, i), s.addr)
						case k%3 == 0:
							s.s.Query(sink.Addr, krpc.NewBaseRequest(t, "ping", misc.Dict{"id": serverId}, nil))
						case k%3 == 1:
							s.s.Query(udpx.Loop(0), krpc.NewBaseRequest(t, "ping", misc.Dict{"id": serverId}, nil))
						default:
							s.s.Query(sink.Addr, krpc.NewBaseRequest(t, "ping", misc.Dict{"id": 1.5}, nil))
						}
					}
				}(w)
			}
			wg.Wait()
			for i := 0; i < 200 && udpx.Queued(s.port) > 0; i++ {
				time.Sleep(time.Millisecond)
			}
			h.R.Eval(fmt.Sprintf("quiet|%d|%d", k, round))
			h.R.Count("messages_handled_in_silence", int64(80*len(cs)))
		}
	}
	newProber(s).alive("after bursts of every kind of message")
	s.s.Close()
}
