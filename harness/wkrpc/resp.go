package main

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/krpc"
	"github.com/GalaIO/P2Pcrawler/misc"

	"verifharness/h"
	"verifharness/ref"
	"verifharness/udpx"
)

// ---- K04: responses

type call struct {
	req  krpc.Request
	t    string
	addr string
	from int64
	dup  int64
	n    int64
	pay  string
	id   string
	body string
}

type oq struct {
	n       int64
	t, kind string
	req     krpc.Request
	to      int
	mu      sync.Mutex
	calls   []call
	arrived int32 // the query reached the responder
}

func k04() {
	R := h.R
	R.Rule = "batches of outstanding queries, each answered by several different responses at once from different sockets after junk (unknown ids, truncated or malformed responses, error messages and queries with the same id), in random order, some handlers slow or sending follow-up queries; distinct = kind x number of duplicates x junk x handler sort x first responder; oracle: the handler of each query ran exactly once, with that query object, a content some socket really sent and that socket's address"
	stop := h.Guard("hang", "the response workload", time.Duration(h.N(200, 3000))*time.Second)
	defer stop()
	const nresp = 8
	late := make(chan bool)
	go func() { defer close(late); k04late() }()
	defer func() { <-late }()
	k04many(h.N(12000, 60000))
	for round := 0; round < h.N(12, 300) && !R.Violated(); round++ {
		r := h.Rand("k04", round)
		s := start("", plainHandlers)
		pr := newProber(s)
		var mu sync.Mutex
		byT := map[string]*oq{}
		var socks []*udpx.Sock
		follow := make(chan func(), 100000)
		for j := 0; j < nresp; j++ {
			j := j
			socks = append(socks, sock(fmt.Sprintf("127.0.0.%d", 1+j), func(p udpx.Packet) {
				v, n, st := ref.Parse(string(p.B))
				if st == ref.Bad || n != len(p.B) {
					R.Violate("query-malformed", "a query the server sent is not one bencoded value", h.Hex(p.B))
					return
				}
				t, _ := v.Str("t")
				mu.Lock()
				q := byT[t]
				mu.Unlock()
				y, _ := v.Str("y")
				if y == "r" || y == "e" {
					return // answers to this side's own queries
				}
				kind, _ := v.Str("q")
				if q == nil || y != "q" || kind != q.kind || j != q.to {
					R.Violate("query-wrong", "a query reached a node it was not addressed to, or with another kind or id", h.Hex(p.B))
					return
				}
				atomic.AddInt32(&q.arrived, 1)
			}))
		}
		var ctr int64
		var newQuery func(r *rand.Rand, depth int) *oq
		newQuery = func(r *rand.Rand, depth int) *oq {
			n := atomic.AddInt64(&ctr, 1)
			q := &oq{n: n, kind: kinds[r.Intn(4)], to: r.Intn(nresp)}
			q.t = fmt.Sprintf("%s%04x", tid(r), n)
			slow := r.Intn(6) == 0
			chain := depth > 0 && r.Intn(4) == 0
			fr := rand.New(rand.NewSource(r.Int63()))
			handler := func(c *krpc.RpcContext) {
				b := c.Response().Body()
				if slow {
					time.Sleep(3 * time.Millisecond)
				}
				k := call{req: c.Request(), t: c.Response().TxId(), addr: c.RemoteAddr().String(),
					from: int64(b.GetIntegerOrDefault("from", -1)), dup: int64(b.GetIntegerOrDefault("dup", -1)), n: int64(b.GetIntegerOrDefault("n", -1)),
					pay: b.GetStringOrDefault("pay", ""), id: c.Response().NodeId(), body: canon(b)}
				q.mu.Lock()
				q.calls = append(q.calls, k)
				q.mu.Unlock()
				if chain {
					f := newQuery(fr, 0)
					if err := s.s.Query(socks[f.to].Addr, f.req); err != nil {
						R.Violate("query-error", "sending a query from a response handler failed: "+err.Error(), nil)
						return
					}
					follow <- func() {
						socks[f.to].Send(answerFor(f, f.to, 0), s.addr)
					}
				}
			}
			q.req = krpc.NewBaseRequest(q.t, q.kind, misc.Dict{"id": serverId, "n": int(n)}, handler)
			mu.Lock()
			byT[q.t] = q
			mu.Unlock()
			return q
		}
		var qs []*oq
		M := 60 + r.Intn(100)
		for i := 0; i < M; i++ {
			q := newQuery(r, 1)
			qs = append(qs, q)
			if err := s.s.Query(socks[q.to].Addr, q.req); err != nil {
				R.Violate("query-error", "sending a query failed: "+err.Error(), nil)
			}
		}
		if !h.Wait(8*time.Second, func() bool {
			for _, q := range qs {
				if atomic.LoadInt32(&q.arrived) == 0 {
					return false
				}
			}
			return true
		}) {
			ports := []int{s.port}
			for _, k := range socks {
				ports = append(ports, k.Addr.Port)
			}
			missing("query-lost", "a query the server reported as sent never arrived", nil, ports...)
		}
		// what will be sent: per query junk first, then duplicates
		type act struct {
			sock int
			b    []byte
		}
		var junk, dups []act
		meta := map[int64][3]int{}
		for _, q := range qs {
			nj := r.Intn(4)
			for k := 0; k < nj; k++ {
				junk = append(junk, act{r.Intn(nresp), junkFor(r, q)})
			}
			nd := 1 + r.Intn(4)
			for d := 0; d < nd; d++ {
				from := r.Intn(nresp)
				if d == 0 && r.Intn(4) > 0 {
					from = q.to // often, not always, from where the query went
				}
				dups = append(dups, act{from, answerFor(q, from, d)})
			}
			meta[q.n] = [3]int{nj, nd, q.to}
		}
		if r.Intn(2) == 0 {
			r.Shuffle(len(junk), func(i, j int) { junk[i], junk[j] = junk[j], junk[i] })
		}
		fire := func(as []act) {
			var wg sync.WaitGroup
			per := make([][]act, nresp)
			for _, a := range as {
				per[a.sock] = append(per[a.sock], a)
			}
			for j := range per {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					for i, a := range per[j] {
						socks[j].Send(a.b, s.addr)
						if i%12 == 11 {
							for w := 0; w < 200 && udpx.Queued(s.port) > 30000; w++ {
								time.Sleep(time.Millisecond)
							}
						}
					}
				}(j)
			}
			wg.Wait()
		}
		fire(junk)
		if r.Intn(2) == 0 {
			// all junk done before the first real response
			pr.alive("after junk responses")
			time.Sleep(20 * time.Millisecond)
			for _, q := range qs {
				q.mu.Lock()
				if len(q.calls) > 0 {
					R.Violate("junk-ran-handler", "a malformed response, error message or unknown id ran a query's handler", q.t)
				}
				q.mu.Unlock()
			}
		}
		if r.Intn(2) == 0 {
			r.Shuffle(len(dups), func(i, j int) { dups[i], dups[j] = dups[j], dups[i] })
		}
		fire(dups)
		// follow-up queries
		idle := 0
		for idle < 25 {
			select {
			case f := <-follow:
				f()
				idle = 0
			case <-time.After(4 * time.Millisecond):
				idle++
			}
		}
		mu.Lock()
		all := make([]*oq, 0, len(byT))
		for _, q := range byT {
			all = append(all, q)
		}
		mu.Unlock()
		h.Wait(10*time.Second, func() bool {
			for {
				select {
				case f := <-follow:
					f()
					continue
				default:
				}
				break
			}
			for _, q := range all {
				q.mu.Lock()
				n := len(q.calls)
				q.mu.Unlock()
				if n == 0 {
					return false
				}
			}
			return true
		})
		time.Sleep(60 * time.Millisecond)
		for _, q := range all {
			q.mu.Lock()
			calls := append([]call(nil), q.calls...)
			q.mu.Unlock()
			m := meta[q.n]
			R.Eval(fmt.Sprintf("%s|%d|%d|%d", q.kind, m[0], m[1], m[2]))
			w := map[string]interface{}{"t": h.HexS(q.t), "kind": q.kind, "junk": m[0], "responses": m[1], "calls": len(calls), "round": round}
			R.Count("queries", 1)
			R.Count("responses_sent", int64(m[1]))
			if len(calls) == 0 {
				if atomic.LoadInt32(&q.arrived) == 0 {
					continue
				}
				missing("handler-never-ran", "a query's response did not run its handler", w, s.port)
				continue
			}
			if len(calls) > 1 {
				R.Violate("handler-twice", fmt.Sprintf("the handler of one query ran %d times", len(calls)), w)
			}
			for _, c := range calls {
				w["call"] = fmt.Sprintf("%+v", c)
				if c.req != q.req {
					R.Violate("handler-query", "the handler was not given its own query", w)
				}
				if c.t != q.t {
					R.Violate("response-id", "the handler was given a response with another transaction id", w)
				}
				if c.n != q.n {
					R.Violate("response-content", "the handler was given the content of another query's response", w)
					continue
				}
				if c.from < 0 || c.from >= nresp || c.addr != socks[c.from].Addr.String() {
					R.Violate("response-address", "the handler was given an address that did not send this content", w)
				}
				if c.pay != payload(q.n, int(c.from), int(c.dup)) || c.id != nodeName(int(c.from)) || c.body != string(ref.Encode(bodyOf(q, int(c.from), int(c.dup)))) {
					w["sent"] = h.Hex(ref.Encode(bodyOf(q, int(c.from), int(c.dup))))
					R.Violate("response-content", "the handler was given a content nobody sent", w)
				}
			}
		}
		if round < 2 {
			R.Sample(map[string]interface{}{"round": round, "queries": len(all), "junk_datagrams": len(junk), "responses": len(dups), "example_response": h.Hex(dups[0].b)})
		}
		k04prompt(s, round)
		pr.alive("after a round of responses")
		s.s.Close()
		for _, k := range socks {
			k.Close()
		}
		pr.c.Close()
	}
}

// k04many: very many queries outstanding at once on one server; then all of
// them are answered, in another order. An answer that had no effect is sent
// again, so that datagrams the kernel drops do not matter.
// k04late: nodes take seconds to answer, far less than the query stays useful.
func k04late() {
	R := h.R
	s := start("", plainHandlers)
	defer s.s.Close()
	slow := sock("127.0.0.1", func(udpx.Packet) {})
	defer slow.Close()
	const n = 60
	runs := make([]int32, n)
	for i := 0; i < n; i++ {
		i := i
		req := krpc.NewBaseRequest(fmt.Sprintf("late%d", i), kinds[i%4], misc.Dict{"id": serverId}, func(c *krpc.RpcContext) {
			atomic.AddInt32(&runs[i], 1)
		})
		if err := s.s.Query(slow.Addr, req); err != nil {
			R.Violate("query-error", "sending a query failed: "+err.Error(), nil)
			return
		}
	}
	left := func() (l []int) {
		for i := range runs {
			if atomic.LoadInt32(&runs[i]) == 0 {
				l = append(l, i)
			}
		}
		return
	}
	wait := time.Duration(h.N(13, 45)) * time.Second
	time.Sleep(wait)
	for try := 0; try < 4; try++ {
		for _, i := range left() {
			slow.Send(response(fmt.Sprintf("late%d", i), ref.D(ref.E("id", ref.S("CLIENTclient01234567")))), s.addr)
		}
		if h.Wait(3*time.Second, func() bool { return len(left()) == 0 }) {
			break
		}
	}
	if l := left(); len(l) > 0 {
		R.Violate("handler-never", fmt.Sprintf("%d of %d queries whose answers came after %v never had their handlers run", len(l), n, wait), nil)
	}
	for i := range runs {
		if c := atomic.LoadInt32(&runs[i]); c > 1 {
			R.Violate("handler-twice", fmt.Sprintf("a handler ran %d times", c), nil)
		}
	}
	R.Eval("late")
	R.Count("answers_after_seconds", n)
}

func k04many(total int) {
	R := h.R
	s := start("", plainHandlers)
	defer s.s.Close()
	blackhole := sock("127.0.0.1", func(udpx.Packet) {})
	defer blackhole.Close()
	runs := make([]int32, total)
	var wrong int32
	r := h.Rand("k04many")
	name := func(i int) string { return fmt.Sprintf("m%x", i) }
	for i := 0; i < total; i++ {
		i := i
		req := krpc.NewBaseRequest(name(i), kinds[i%4], misc.Dict{"id": serverId}, func(c *krpc.RpcContext) {
			b := c.Response().Body()
			if c.Request().TxId() != name(i) || c.Response().TxId() != name(i) || b.GetIntegerOrDefault("n", -1) != i {
				atomic.AddInt32(&wrong, 1)
			}
			atomic.AddInt32(&runs[i], 1)
		})
		if err := s.s.Query(blackhole.Addr, req); err != nil {
			R.Violate("query-error", "sending a query failed: "+err.Error(), nil)
			return
		}
	}
	todo := r.Perm(total)
	for try := 0; try < 6 && len(todo) > 0; try++ {
		for k, i := range todo {
			blackhole.Send(response(name(i), ref.D(ref.E("id", ref.S("CLIENTclient01234567")), ref.E("n", ref.I(int64(i))))), s.addr)
			if k%16 == 15 {
				for w := 0; w < 200 && udpx.Queued(s.port) > 30000; w++ {
					time.Sleep(time.Millisecond)
				}
			}
		}
		left := todo
		h.Wait(5*time.Second, func() bool {
			var l []int
			for _, i := range left {
				if atomic.LoadInt32(&runs[i]) == 0 {
					l = append(l, i)
				}
			}
			left = l
			return len(left) == 0
		})
		todo = left
	}
	time.Sleep(50 * time.Millisecond)
	if len(todo) > 0 {
		R.Violate("handler-never-ran", fmt.Sprintf("with %d queries outstanding at once, %d of them could not be answered: six responses each ran no handler", total, len(todo)), map[string]interface{}{"example": name(todo[0])})
	}
	if atomic.LoadInt32(&wrong) > 0 {
		R.Violate("handler-query", "with many queries outstanding, handlers were given another query or response", nil)
	}
	for i := range runs {
		if n := atomic.LoadInt32(&runs[i]); n > 1 {
			R.Violate("handler-twice", fmt.Sprintf("the handler of one query ran %d times", n), name(i))
			break
		}
	}
	R.Max("most_queries_outstanding", int64(total))
	R.Eval("many outstanding")
}

// slowRequest takes its time to say what its transaction id is.
type slowRequest struct {
	krpc.Request
	d time.Duration
}

func (q slowRequest) TxId() string {
	time.Sleep(q.d)
	return q.Request.TxId()
}

// k04prompt: the responder is faster than the sender; the answer is there
// before Query has returned.
func k04prompt(s *srv, round int) {
	R := h.R
	var k *udpx.Sock
	var mu sync.Mutex
	ready := make(chan struct{})
	k = sock("127.0.0.1", func(p udpx.Packet) {
		<-ready
		v, _, st := ref.Parse(string(p.B))
		if st == ref.Bad {
			return
		}
		t, _ := v.Str("t")
		k.Send(response(t, ref.D(ref.E("id", ref.S(nodeName(1))))), s.addr)
	})
	close(ready)
	defer k.Close()
	var wg sync.WaitGroup
	ran := map[string]int{}
	ts := make([]string, 24)
	for i := range ts {
		r := h.Rand("k04prompt", round, i)
		t := fmt.Sprintf("P%02x%04x", round&255, i)
		ts[i] = t
		var q krpc.Request = krpc.NewBaseRequest(t, kinds[r.Intn(4)], misc.Dict{"id": serverId}, func(c *krpc.RpcContext) {
			mu.Lock()
			ran[c.Response().TxId()]++
			mu.Unlock()
		})
		if i%3 != 0 {
			q = slowRequest{q, time.Duration(1+r.Intn(3000)) * time.Microsecond}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := s.s.Query(k.Addr, q); err != nil {
				R.Violate("query-error", "sending a query failed: "+err.Error(), nil)
			}
		}()
		if i%4 == 0 {
			wg.Wait()
		}
	}
	wg.Wait()
	if !h.Wait(10*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(ran) == len(ts) }) {
		mu.Lock()
		n := len(ran)
		mu.Unlock()
		missing("handler-never-ran", fmt.Sprintf("queries answered at once: the handlers of %d of %d ran", n, len(ts)), map[string]int{"round": round}, s.port, k.Addr.Port)
	}
	mu.Lock()
	defer mu.Unlock()
	for _, t := range ts {
		if ran[t] > 1 {
			R.Violate("handler-twice", fmt.Sprintf("the handler of one query ran %d times", ran[t]), t)
		}
	}
	R.Count("queries_answered_at_once", int64(len(ts)))
	R.Eval(fmt.Sprintf("prompt|%d", round))
}

func nodeName(j int) string {
	switch j {
	case 5: // says something else than 20 bytes
		return "short"
	case 6:
		return strings.Repeat("LONGlong", 8)
	}
	return fmt.Sprintf("NODEnodeNODEnode%04d", j)
}

func payload(n int64, from, dup int) string {
	r := rand.New(rand.NewSource(n*1000 + int64(from*10+dup)))
	return string(h.Bytes(r, r.Intn(300)))
}

func answerFor(q *oq, from, dup int) []byte {
	return response(q.t, bodyOf(q, from, dup))
}

// bodyOf is what a node says in its answer: besides what identifies it,
// anything real nodes add, and anything else.
func bodyOf(q *oq, from, dup int) *ref.Val {
	r := rand.New(rand.NewSource(q.n*1000 + int64(from*10+dup) + 500))
	v := ref.D(ref.E("dup", ref.I(int64(dup))), ref.E("from", ref.I(int64(from))), ref.E("id", ref.S(nodeName(from))), ref.E("n", ref.I(q.n)), ref.E("pay", ref.S(payload(q.n, from, dup))))
	for _, k := range []string{"", "a", "e", "ip", "nodes", "nodes6", "p", "q", "r", "samples", "t", "token", "v", "values", "y", "\xff\x00"} {
		if r.Intn(12) != 0 {
			continue
		}
		var x *ref.Val
		switch r.Intn(5) {
		case 0:
			x = ref.I(int64(r.Uint64()))
		case 1:
			x = ref.S("")
		case 2:
			x = ref.L(ref.S(string(h.Bytes(r, 6))), ref.L(), ref.I(-1))
		case 3:
			x = ref.D(ref.E("", ref.I(0)), ref.E("d", ref.D()))
		default:
			x = ref.S(string(h.Bytes(r, r.Intn(60))))
		}
		v.D = append(v.D, ref.E(k, x))
	}
	return v
}

// canon is the canonical text of what the code under test hands out.
func canon(x interface{}) string {
	v := fromMisc(x)
	if v == nil {
		return fmt.Sprintf("not a message value: %T", x)
	}
	return string(ref.Encode(v))
}

func fromMisc(x interface{}) *ref.Val {
	switch t := x.(type) {
	case int:
		return ref.I(int64(t))
	case string:
		return ref.S(t)
	case misc.List:
		v := ref.L()
		for _, e := range t {
			w := fromMisc(e)
			if w == nil {
				return nil
			}
			v.L = append(v.L, w)
		}
		return v
	case misc.Dict:
		v := ref.D()
		for k, e := range t {
			w := fromMisc(e)
			if w == nil {
				return nil
			}
			v.D = append(v.D, ref.E(k, w))
		}
		return v
	}
	return nil
}

// junkFor never is a well-formed response with the query's id.
func junkFor(r *rand.Rand, q *oq) []byte {
	full := answerFor(q, 0, 9)
	ok := ref.D(ref.E("id", ref.S(nodeName(0))))
	switch r.Intn(16) {
	case 14:
		// a query of the other side's, with the same id
		return query(q.t, kinds[r.Intn(4)], ref.D(ref.E("id", ref.S(nodeName(0))), ref.E("info_hash", ref.S(nodeName(0))), ref.E("port", ref.I(6881)), ref.E("target", ref.S(nodeName(0))), ref.E("token", ref.S("tt"))))
	case 15:
		return query(q.t, []string{"vote", "get", ""}[r.Intn(3)], ref.D(ref.E("id", ref.S(nodeName(0)[r.Intn(2):]))))
	case 9:
		return response(q.t[:len(q.t)-1], ok)
	case 10:
		return response(q.t[1:], ok)
	case 11:
		return response(q.t[:r.Intn(len(q.t))], ok)
	case 12:
		b := []byte(q.t)
		i := r.Intn(len(b))
		b[i] ^= []byte{0x20, 1, 0x80, 0xff}[r.Intn(4)]
		return response(string(b), ok)
	case 13:
		return response([]string{"\x00" + q.t, q.t + "\x00", " " + q.t, q.t + q.t}[r.Intn(4)], ok)
	case 0:
		return full[:r.Intn(len(full)-1)]
	case 1:
		return response(q.t+"x", ref.D(ref.E("id", ref.S(nodeName(0)))))
	case 2:
		return response(string(h.Bytes(r, 9)), ref.D(ref.E("id", ref.S(nodeName(0)))))
	case 3:
		return ref.Encode(ref.D(ref.E("t", ref.S(q.t)), ref.E("y", ref.S("r"))))
	case 4:
		return ref.Encode(ref.D(ref.E("r", ref.L(ref.S("id"))), ref.E("t", ref.S(q.t)), ref.E("y", ref.S("r"))))
	case 5:
		return ref.Encode(ref.D(ref.E("r", ref.S("id")), ref.E("t", ref.S(q.t)), ref.E("y", ref.S("r"))))
	case 6:
		return ref.Encode(ref.D(ref.E("e", ref.L(ref.I(203), ref.S("Protocol Error"))), ref.E("t", ref.S(q.t)), ref.E("y", ref.S("e"))))
	case 7:
		return ref.Encode(ref.D(ref.E("r", ref.D(ref.E("id", ref.S(nodeName(0))))), ref.E("t", ref.L(ref.S(q.t))), ref.E("y", ref.S("r"))))
	default:
		return ref.Encode(ref.D(ref.E("r", ref.D(ref.E("id", ref.S(nodeName(0))))), ref.E("t", ref.S(q.t)), ref.E("y", ref.S([]string{"z", "e", ""}[r.Intn(3)]))))
	}
}

// ---- K05: middleware

// model is the trace a chain must leave.
func model(explicit []bool) []string {
	var tr []string
	var f func(i int)
	f = func(i int) {
		if i == len(explicit) {
			return
		}
		tr = append(tr, fmt.Sprintf("+%d", i))
		if explicit[i] {
			f(i + 1)
			tr = append(tr, fmt.Sprintf("-%d", i))
			return
		}
		tr = append(tr, fmt.Sprintf("-%d", i))
		f(i + 1)
	}
	f(0)
	return tr
}

type tracer struct {
	mu sync.Mutex
	m  map[*krpc.RpcContext]*trace
	t  map[string][]*trace
}

type trace struct {
	ev   []string
	req  krpc.Request
	resp krpc.Response
	addr string
	t    string
}

func (x *tracer) event(c *krpc.RpcContext, what string) *trace {
	x.mu.Lock()
	defer x.mu.Unlock()
	tr := x.m[c]
	if tr == nil {
		tr = &trace{req: c.Request(), resp: c.Response(), addr: fmt.Sprint(c.RemoteAddr()), t: c.Request().TxId()}
		x.m[c] = tr
		x.t[tr.t] = append(x.t[tr.t], tr)
	}
	tr.ev = append(tr.ev, what)
	return tr
}

func (x *tracer) stage(i int, explicit bool, isResp bool) krpc.RpcHandlerFunc {
	return func(c *krpc.RpcContext) {
		tr := x.event(c, fmt.Sprintf("+%d", i))
		if tr.req != c.Request() {
			h.R.Violate("context-request", "a stage sees another request than the stages before it", fmt.Sprint(i))
		}
		if explicit {
			c.Next()
		}
		x.event(c, fmt.Sprintf("-%d", i))
		if tr.req != c.Request() || isResp && tr.resp != c.Response() {
			h.R.Violate("context-changed", "a stage sees another message after the later stages ran", fmt.Sprint(i))
		}
	}
}

func judgeTrace(where string, explicit []bool, got []string) {
	want := model(explicit)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		h.R.Violate("trace-"+where, "the stages did not run exactly once each, in order and nested", map[string]string{"explicit_next": fmt.Sprint(explicit), "expected": strings.Join(want, " "), "observed": strings.Join(got, " ")})
	}
}

func k05() {
	R := h.R
	R.Rule = "chains of 0 to 20 stages where each stage calls the next one explicitly or not (all patterns up to 9 stages, random beyond), run directly, and as request and response middleware of the real server with concurrent messages of all kinds whose handlers differ; distinct = place x pattern; oracle: enter/leave trace of each message equals a nesting model, each message's stages see only its own request, response, handler and address"
	// the context alone
	direct := func(explicit []bool) {
		x := &tracer{m: map[*krpc.RpcContext]*trace{}, t: map[string][]*trace{}}
		var chain []krpc.RpcHandlerFunc
		for i, e := range explicit {
			chain = append(chain, x.stage(i, e, true))
		}
		req := krpc.NewBaseRequest("t", "ping", misc.Dict{}, nil)
		c := krpc.NewReqContext(chain, req, nil, nil)
		if p, bad := h.Try(func() { c.Next() }); bad {
			R.Violate("chain-panic", fmt.Sprintf("running a chain of %d stages panicked: %v", len(explicit), p), fmt.Sprint(explicit))
			return
		}
		R.Eval("direct" + fmt.Sprint(explicit))
		var got []string
		if tr := x.m[c]; tr != nil {
			got = tr.ev
		}
		judgeTrace("direct", explicit, got)
	}
	for n := 0; n <= 9; n++ {
		for m := 0; m < 1<<uint(n); m++ {
			e := make([]bool, n)
			for i := range e {
				e[i] = m>>uint(i)&1 == 1
			}
			direct(e)
		}
	}
	r := h.Rand("chains")
	for i := 0; i < h.N(3000, 60000); i++ {
		e := make([]bool, 10+r.Intn(11))
		if i%6 == 0 {
			e = make([]bool, []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}[i/6%14])
		}
		p := r.Intn(5)
		for k := range e {
			e[k] = r.Intn(4) < p
		}
		direct(e)
	}
	// inside the server
	for round := 0; round < h.N(14, 200) && !R.Violated(); round++ {
		served(round)
	}
}

// spoil overwrites what was registered: the list is the caller's to use again.
func spoil(group []krpc.RpcHandlerFunc) {
	for i := range group {
		group[i] = func(c *krpc.RpcContext) {
			h.R.Violate("foreign-stage", "a function that was never registered runs as a stage: the server kept the caller's list", nil)
		}
	}
}

func served(round int) {
	R := h.R
	r := h.Rand("served", round)
	pattern := func() []bool {
		n := []int{0, 1, 2, 3, 5, 8, 13, 15, 16, 17, 20, 40, 70}[r.Intn(13)]
		e := make([]bool, n+1) // the handler is the last stage
		p := r.Intn(5)
		for k := range e {
			e[k] = r.Intn(4) < p
		}
		return e
	}
	reqE, respE := pattern(), pattern()
	reqX := &tracer{m: map[*krpc.RpcContext]*trace{}, t: map[string][]*trace{}}
	respX := &tracer{m: map[*krpc.RpcContext]*trace{}, t: map[string][]*trace{}}
	s := start("", func(s *krpc.RpcServer) {
		use := func(x *tracer, e []bool, reg func(...krpc.RpcHandlerFunc), isResp bool) {
			var group []krpc.RpcHandlerFunc
			for i := 0; i < len(e)-1; i++ {
				group = append(group, x.stage(i, e[i], isResp))
				if r.Intn(2) == 0 {
					reg(group...)
					spoil(group)
					if r.Intn(2) == 0 {
						group = nil
					}
					group = group[:0]
				}
			}
			reg(group...)
			spoil(group)
		}
		use(reqX, reqE, s.UseReqHandlerMiddleware, false)
		use(respX, respE, s.UseRespHandlerMiddleware, true)
		for _, kind := range kinds {
			kind := kind
			last := len(reqE) - 1
			st := reqX.stage(last, reqE[last], false)
			s.RegisteHandler(kind, func(c *krpc.RpcContext) {
				if c.Request().Type() != kind {
					R.Violate("wrong-handler", "the handler of "+kind+" was run for a "+c.Request().Type()+" query", nil)
				}
				b := c.Request().Body()
				c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": serverId, "kind": kind, "n": b.GetInteger("n")}))
				st(c)
				if got := c.Response().TxId(); got != c.Request().TxId() {
					R.Violate("context-response", "a message's context holds another message's response", h.HexS(got))
				}
			})
		}
	})
	// requests
	type sent struct {
		kind string
		n    int64
		addr string
	}
	var mu sync.Mutex
	asked := map[string]sent{}
	answered := map[string]int{}
	var wg sync.WaitGroup
	const clients = 12
	per := 25
	var socks []*udpx.Sock
	sems := make([]chan struct{}, clients)
	for i := 0; i < clients; i++ {
		sem := make(chan struct{}, 6)
		sems[i] = sem
		socks = append(socks, sock("127.0.0.1", func(p udpx.Packet) {
			v, _, st := ref.Parse(string(p.B))
			if st == ref.Bad {
				R.Violate("reply-malformed", "reply is not bencode", h.Hex(p.B))
				return
			}
			t, _ := v.Str("t")
			b := v.Get("r")
			kind, _ := b.Str("kind")
			n, _ := b.Int("n")
			mu.Lock()
			a, ok := asked[t]
			answered[t]++
			dup := answered[t] > 1
			mu.Unlock()
			if !ok || a.kind != kind || a.n != n {
				R.Violate("reply-mixed", "a reply does not hold what its own query's handler produced", map[string]string{"asked": fmt.Sprint(a), "reply": h.Hex(p.B)})
			}
			if dup {
				R.Violate("reply-twice", "a query was answered twice", h.Hex(p.B))
				return
			}
			<-sem
		}))
	}
	var n int64
	for i := 0; i < clients; i++ {
		wg.Add(1)
		cr := h.Rand("served-client", round, i)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < per; k++ {
				select {
				case sems[i] <- struct{}{}:
				case <-time.After(15 * time.Second):
					return
				}
				id := atomic.AddInt64(&n, 1)
				t := fmt.Sprintf("q%d", id)
				kind := kinds[cr.Intn(4)]
				mu.Lock()
				asked[t] = sent{kind, id, socks[i].Addr.String()}
				mu.Unlock()
				socks[i].Send(query(t, kind, ref.D(ref.E("id", ref.S("CLIENTclient01234567")), ref.E("n", ref.I(id)))), s.addr)
			}
		}(i)
	}
	// responses, at the same time
	type rq struct {
		req  krpc.Request
		runs int32
	}
	rqs := map[string]*rq{}
	var rmu sync.Mutex
	peer := sock("127.0.0.1", nil)
	wg.Add(1)
	go func() {
		defer wg.Done()
		last := len(respE) - 1
		for k := 0; k < 120; k++ {
			t := fmt.Sprintf("r%d", k)
			q := &rq{}
			st := respX.stage(last, respE[last], true)
			k := k
			q.req = krpc.NewBaseRequest(t, kinds[k%4], misc.Dict{"id": serverId}, func(c *krpc.RpcContext) {
				atomic.AddInt32(&q.runs, 1)
				b := c.Response().Body()
				if c.Request() != q.req || c.Response().TxId() != t || b.GetInteger("n") != k {
					R.Violate("response-mixed", "a response handler sees another message's request or response", h.HexS(t))
				}
				st(c)
			})
			rmu.Lock()
			rqs[t] = q
			rmu.Unlock()
			s.s.Query(peer.Addr, q.req)
			if k%10 == 9 {
				for j := k - 9; j <= k; j++ {
					peer.Send(response(fmt.Sprintf("r%d", j), ref.D(ref.E("id", ref.S(serverId)), ref.E("n", ref.I(int64(j))))), s.addr)
				}
				time.Sleep(time.Millisecond)
			}
		}
	}()
	wg.Wait()
	all := h.Wait(10*time.Second, func() bool {
		mu.Lock()
		a := len(answered) == len(asked) && len(asked) == clients*per
		mu.Unlock()
		if !a {
			return false
		}
		rmu.Lock()
		defer rmu.Unlock()
		for _, q := range rqs {
			if atomic.LoadInt32(&q.runs) == 0 {
				return false
			}
		}
		return true
	})
	if !all {
		ports := []int{s.port, peer.Addr.Port}
		for _, k := range socks {
			ports = append(ports, k.Addr.Port)
		}
		mu.Lock()
		na, nq := len(answered), len(asked)
		mu.Unlock()
		missing("message-unhandled", fmt.Sprintf("not every message ran through its chain: %d of %d queries answered", na, nq), nil, ports...)
		s.s.Close()
		return
	}
	time.Sleep(30 * time.Millisecond)
	key := func(e []bool) string { return fmt.Sprint(e) }
	reqX.mu.Lock()
	for t, trs := range reqX.t {
		if len(trs) != 1 {
			R.Violate("request-chains", fmt.Sprintf("one request ran %d chains", len(trs)), h.HexS(t))
			continue
		}
		a := asked[t]
		if trs[0].addr != a.addr {
			R.Violate("context-address", "a request's context carries another client's address", map[string]string{"want": a.addr, "got": trs[0].addr})
		}
		judgeTrace("request", reqE, trs[0].ev)
		R.Eval("request" + key(reqE))
		R.Count("request_traces", 1)
	}
	if len(reqX.t) != len(asked) {
		R.Violate("request-chains", fmt.Sprintf("%d requests, %d chains", len(asked), len(reqX.t)), nil)
	}
	reqX.mu.Unlock()
	respX.mu.Lock()
	for t, trs := range respX.t {
		if len(trs) != 1 {
			R.Violate("response-chains", fmt.Sprintf("one response ran %d chains", len(trs)), h.HexS(t))
			continue
		}
		judgeTrace("response", respE, trs[0].ev)
		R.Eval("response" + key(respE))
		R.Count("response_traces", 1)
	}
	respX.mu.Unlock()
	for t, q := range rqs {
		if q.runs != 1 {
			R.Violate("response-handler", fmt.Sprintf("a response handler ran %d times", q.runs), h.HexS(t))
		}
	}
	if round < 2 {
		R.Sample(map[string]interface{}{"request_chain_explicit": reqE, "response_chain_explicit": respE, "model_trace": strings.Join(model(reqE), " ")})
	}
	s.s.Close()
	for _, k := range socks {
		k.Close()
	}
	peer.Close()
}

// ---- K06: retained data

func stamp(src, seq, size int) []byte {
	b := make([]byte, size)
	r := rand.New(rand.NewSource(int64(src)<<32 | int64(seq)))
	r.Read(b)
	if size >= 12 {
		binary.BigEndian.PutUint32(b, uint32(src))
		binary.BigEndian.PutUint32(b[4:], uint32(seq))
		binary.BigEndian.PutUint32(b[8:], crc32.ChecksumIEEE(b[12:]))
	}
	return b
}

func k06() {
	R := h.R
	R.Rule = "datagrams of every size from 0 to 1024 bytes from many sockets to several UDP servers sharing the process's buffers, consumed late and retained, while RPC servers recycle buffers under load and keep requests and responses; distinct = size x source; oracle: every retained packet equals one sent datagram from that source, exactly once, at receipt and at the end; kept requests and responses still hold what was sent"
	stop := h.Guard("hang", "the retention workload", time.Duration(h.N(240, 3000))*time.Second)
	defer stop()
	done := make(chan struct{})
	var bg sync.WaitGroup
	// background: an RPC server that recycles buffers and keeps contents
	type kept struct {
		c       *krpc.RpcContext
		req     krpc.Request
		resp    krpc.Response
		t, want string
		addr    *net.UDPAddr
		from    string
	}
	var kmu sync.Mutex
	var keep []*kept
	s := start("", func(s *krpc.RpcServer) {
		s.RegisteHandler("ping", func(c *krpc.RpcContext) {
			b := c.Request().Body()
			k := &kept{c: c, req: c.Request(), t: c.Request().TxId(), addr: c.RemoteAddr(), from: c.RemoteAddr().String()}
			k.want = strings.Clone(b.GetString("pay"))
			k.t = strings.Clone(k.t)
			kmu.Lock()
			keep = append(keep, k)
			kmu.Unlock()
			time.Sleep(200 * time.Microsecond)
			c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": serverId, "pay": b.GetString("pay")}))
		})
	})
	for i := 0; i < 6; i++ {
		bg.Add(1)
		i := i
		go func() {
			defer bg.Done()
			r := h.Rand("bg", i)
			sem := make(chan struct{}, 4)
			var mu sync.Mutex
			out := map[string]string{}
			c := sock("127.0.0.1", func(p udpx.Packet) {
				v, _, st := ref.Parse(string(p.B))
				if st != ref.OK {
					if st == ref.Bad {
						R.Violate("reply-altered", "a reply is not bencode", h.Hex(p.B))
					}
					return
				}
				t, _ := v.Str("t")
				pay, _ := v.Get("r").Str("pay")
				mu.Lock()
				want, ok := out[t]
				delete(out, t)
				mu.Unlock()
				if !ok || pay != want {
					R.Violate("request-altered", "the handler saw a request content that was not sent", map[string]string{"t": h.HexS(t), "got": h.HexS(pay), "want": h.HexS(want)})
				}
				select {
				case <-sem:
				default:
				}
			})
			defer c.Close()
			resp := sock("127.0.0.1", nil)
			defer resp.Close()
			for n := 0; ; n++ {
				select {
				case <-done:
					return
				case sem <- struct{}{}:
				case <-time.After(300 * time.Millisecond):
					select { // a lost one
					case <-sem:
					default:
					}
					continue
				}
				if n > 4000 {
					time.Sleep(2 * time.Millisecond)
				}
				if n%4 == 1 {
					// traffic that holds no message: its buffers are recycled too
					id := ref.E("id", ref.S("CLIENTclient01234567"))
					var b []byte
					switch r.Intn(10) {
					case 0:
					case 9:
						// fills the buffer
						b = h.Bytes(r, 1024+r.Intn(2)*r.Intn(400))
						b[0] = "dli0"[r.Intn(4)]
					case 1:
						b = h.Bytes(r, r.Intn(300))
						if len(b) > 0 {
							b[0] = "dli0x"[r.Intn(5)]
						}
					case 2:
						b = ref.Encode(ref.D(ref.E("a", ref.D(id)), ref.E("q", ref.S("ping")), ref.E("t", ref.S("no-y"))))
					case 3:
						b = ref.Encode(ref.D(ref.E("t", ref.S("x")), ref.E("y", ref.S("z"))))
					case 4:
						b = ref.Encode(ref.D(ref.E("e", ref.L(ref.I(201), ref.S("no"))), ref.E("t", ref.S("x")), ref.E("y", ref.S("e"))))
					case 5:
						b = ref.Encode(ref.D(ref.E("t", ref.S("x")), ref.E("y", ref.I(4))))
					case 6:
						b = response("unknown", ref.D(id))
					case 7:
						b = response("unknown", ref.D())
					case 8:
						b = ref.Encode(ref.D(ref.E("y", ref.S([]string{"r", "e"}[r.Intn(2)]))))
					}
					R.Count("background_other_datagrams", 1)
					resp.Send(b, s.addr)
				}
				pay := string(h.Bytes(r, r.Intn(800)))
				t := fmt.Sprintf("%d.%d", i, n)
				ping := func() []byte {
					return query(t, "ping", ref.D(ref.E("id", ref.S("CLIENTclient01234567")), ref.E("pay", ref.S(pay))))
				}
				if r.Intn(5) == 0 {
					// as large as a query may be
					pay = string(h.Bytes(r, 900))
					pay += string(h.Bytes(r, 1024-len(ping())))
				}
				mu.Lock()
				out[t] = pay
				mu.Unlock()
				c.Send(ping(), s.addr)
				if n%3 == 0 && n < 6000 {
					rt := fmt.Sprintf("R%d.%d", i, n)
					want := string(h.Bytes(r, r.Intn(800)))
					s.s.Query(resp.Addr, krpc.NewBaseRequest(rt, "ping", misc.Dict{"id": serverId}, func(c *krpc.RpcContext) {
						b := c.Response().Body()
						if b.GetStringOrDefault("pay", "?") != want {
							R.Violate("response-altered", "a response handler saw a content that was not sent", h.HexS(rt))
						}
						kmu.Lock()
						keep = append(keep, &kept{c: c, resp: c.Response(), t: rt, want: want, addr: c.RemoteAddr(), from: c.RemoteAddr().String()})
						kmu.Unlock()
					}))
					resp.Send(response(rt, ref.D(ref.E("id", ref.S("CLIENTclient01234567")), ref.E("pay", ref.S(want)))), s.addr)
				}
			}
		}()
	}
	// foreground: packets retained
	for round := 0; round < h.N(4, 30) && !R.Violated(); round++ {
		retain(round, h.N(2500, 8000))
	}
	close(done)
	bg.Wait()
	time.Sleep(100 * time.Millisecond)
	kmu.Lock()
	defer kmu.Unlock()
	for _, k := range keep {
		what, got, t := "request", "", ""
		if k.req != nil {
			b := k.req.Body()
			got, t = b.GetStringOrDefault("pay", "?"), k.req.TxId()
			if k.c.Request() != k.req {
				R.Violate("request-altered", "a kept context refers to another request now", h.HexS(k.t))
			}
		} else {
			what = "response"
			b := k.resp.Body()
			got, t = b.GetStringOrDefault("pay", "?"), k.resp.TxId()
		}
		if got != k.want || t != k.t || k.addr.String() != k.from {
			R.Violate(what+"-altered", "a kept "+what+" no longer holds what was received", map[string]string{"t": h.HexS(k.t), "now_t": h.HexS(t), "now": h.HexS(got), "received": h.HexS(k.want), "addr": k.from, "addr_now": k.addr.String()})
		}
		R.Eval("")
		R.Count("kept_"+what+"s", 1)
	}
	s.s.Close()
}

type held struct {
	p    *krpc.RecvPacket
	copy string
	addr string
}

func retain(round, total int) {
	R := h.R
	var u *krpc.UdpServer
	port := 0
	for i := 0; i < 100 && u == nil; i++ {
		port = udpx.FreePort()
		h.Try(func() { u = krpc.StartUdpServer(fmt.Sprintf(":%d", port)) })
	}
	if u == nil {
		h.Fatal("cannot start a UDP server")
	}
	const nsock = 10
	var socks []*udpx.Sock
	idx := map[string]int{}
	for i := 0; i < nsock; i++ {
		k := sock(fmt.Sprintf("127.0.0.%d", 1+i%5), nil)
		socks = append(socks, k)
		idx[k.Addr.String()] = i
	}
	var consumed int64
	var hs []held
	quit := make(chan struct{})
	var cw sync.WaitGroup
	cw.Add(1)
	cr := h.Rand("consumer", round)
	go func() {
		defer cw.Done()
		for {
			select {
			case p := <-u.RecvChan():
				hs = append(hs, held{p, string(p.Bytes), p.Addr.String()})
				atomic.AddInt64(&consumed, 1)
				if cr.Intn(200) == 0 {
					// let unconsumed packets pile up
					time.Sleep(8 * time.Millisecond)
				}
				if cr.Intn(50) == 0 {
					u.SendPacket([]byte("some outgoing traffic"), p.Addr)
				}
			case <-quit:
				return
			}
		}
	}()
	r := h.Rand("sizes", round)
	type key struct {
		src int
		b   string
	}
	sent := map[key]int{}
	var nsent int64
	lost := false
	for i := 0; i < total && !lost; i++ {
		size := r.Intn(1025)
		switch {
		case i < 1025 && round == 0:
			size = i
		case r.Intn(20) == 0:
			size = 1024
		case r.Intn(20) == 0:
			size = r.Intn(3)
		}
		src := r.Intn(nsock)
		b := stamp(src, round*1000000+i, size)
		sent[key{src, string(b)}]++
		if err := socks[src].Send(b, udpx.Loop(port)); err != nil {
			h.Fatal("send: %v", err)
		}
		nsent++
		R.Eval(fmt.Sprintf("%d|%d", size, src))
		// at most 90 under way, so that nothing overflows
		if nsent-atomic.LoadInt64(&consumed) > 90 {
			if !h.Wait(10*time.Second, func() bool { return nsent-atomic.LoadInt64(&consumed) < 60 }) {
				lost = true
			}
		}
	}
	all := h.Wait(10*time.Second, func() bool { return atomic.LoadInt64(&consumed) >= nsent })
	time.Sleep(20 * time.Millisecond)
	close(quit)
	cw.Wait()
	got := map[key]int{}
	for _, x := range hs {
		src, ok := idx[x.addr]
		w := map[string]string{"from": x.addr, "received": h.HexS(x.copy), "now": h.Hex(x.p.Bytes)}
		if string(x.p.Bytes) != x.copy || x.p.Addr.String() != x.addr {
			R.Violate("packet-altered", "a retained packet was altered by later traffic", w)
			continue
		}
		if !ok {
			R.Violate("packet-source", "a packet carries an address that sent nothing", w)
			continue
		}
		k := key{src, x.copy}
		got[k]++
		if sent[k] == 0 {
			R.Violate("packet-content", "a packet is not what its source sent", w)
		} else if got[k] > sent[k] {
			R.Violate("packet-twice", "a datagram was delivered twice", w)
		}
	}
	R.Count("packets_retained", int64(len(hs)))
	if !all && !R.Violated() {
		for k, n := range sent {
			if got[k] < n {
				missing("packet-lost", fmt.Sprintf("a datagram of %d bytes was not delivered", len(k.b)), h.HexS(k.b), port)
				break
			}
		}
	}
	if round == 0 {
		R.Sample(map[string]interface{}{"packets": len(hs), "sources": nsock, "sizes": "every size 0..1024"})
	}
	u.Close()
	for _, k := range socks {
		k.Close()
	}
}

// ---- K07: closing

func k07() {
	R := h.R
	R.Rule = "servers closed by 1 to 8 goroutines at once, idle or under incoming queries, responses and outgoing sends, some closed again later; distinct = closers x load x binding; oracle: no panic, the address is bound by the first caller whose Close returned, later sends return an error, the new socket receives what is sent there and the old handlers never see it, further closes disturb nobody"
	stop := h.Guard("hang", "the closing workload", time.Duration(h.N(200, 3000))*time.Second)
	defer stop()
	k07udp()
	rounds := h.N(150, 3000)
	for round := 0; round < rounds && R.Bad() < 4; round++ {
		r := h.Rand("k07", round)
		h.Journal("k07 round %d", round)
		host := []string{"", "127.0.0.1"}[r.Intn(2)]
		var ran sync.Map
		s := start(host, func(s *krpc.RpcServer) {
			s.RegisteHandler("ping", func(c *krpc.RpcContext) {
				ran.Store(c.Request().TxId(), true)
				c.WriteAs(krpc.WithResponse(c.Request().TxId(), misc.Dict{"id": serverId}))
			})
		})
		load := r.Intn(3)
		quit := make(chan struct{})
		var lw sync.WaitGroup
		in := sock("127.0.0.1", nil)
		if load > 0 {
			for g := 0; g < 2*load; g++ {
				lw.Add(1)
				g := g
				go func() {
					defer lw.Done()
					for n := 0; ; n++ {
						select {
						case <-quit:
							return
						default:
						}
						if g%2 == 0 {
							in.Send(query(fmt.Sprintf("load%d.%d", g, n), "ping", ref.D(ref.E("id", ref.S("CLIENTclient01234567")))), s.addr)
						} else {
							s.s.Query(in.Addr, krpc.NewBaseRequest(fmt.Sprintf("s%d.%d", g, n), "ping", misc.Dict{"id": serverId}, func(c *krpc.RpcContext) {}))
						}
						if n%16 == 0 {
							time.Sleep(100 * time.Microsecond)
						}
					}
				}()
			}
		}
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		closers := 1 + r.Intn(8)
		var first int32
		var nc *net.UDPConn
		var berr error
		bound := make(chan struct{})
		var cw sync.WaitGroup
		begin := make(chan struct{})
		for i := 0; i < closers; i++ {
			cw.Add(1)
			go func() {
				defer cw.Done()
				<-begin
				if p, bad := h.Try(s.s.Close); bad {
					R.Violate("close-panic", fmt.Sprintf("closing panicked: %v", p), map[string]int{"closers": closers, "load": load})
				}
				if atomic.AddInt32(&first, 1) == 1 {
					nc, berr = net.ListenUDP("udp", laddr(host, s.port))
					close(bound)
				}
			}()
		}
		close(begin)
		cw.Wait()
		<-bound
		R.Eval(fmt.Sprintf("%d|%d|%s", closers, load, host))
		w := map[string]interface{}{"closers": closers, "load": load, "host": host, "round": round}
		if round < 3 {
			R.Sample(w)
		}
		if berr != nil {
			R.Violate("rebind", "a Close returned, but binding the address again failed: "+berr.Error(), w)
			close(quit)
			lw.Wait()
			in.Close()
			continue
		}
		// sends must fail now
		for k := 0; k < 3; k++ {
			var err error
			p, bad := h.Try(func() {
				err = s.s.Query(in.Addr, krpc.NewBaseRequest("after", "ping", misc.Dict{"id": serverId}, func(c *krpc.RpcContext) {}))
			})
			if bad {
				R.Violate("send-panic", fmt.Sprintf("a send after close panicked: %v", p), w)
			} else if err == nil {
				R.Violate("send-after-close", "a send after close reported success", w)
			}
		}
		close(quit)
		lw.Wait()
		// further closes, while the address belongs to someone else
		if p, bad := h.Try(func() { s.s.Close(); s.s.Close() }); bad {
			R.Violate("close-panic", fmt.Sprintf("closing again panicked: %v", p), w)
		}
		nc.SetReadBuffer(1 << 20)
		asker := sock("127.0.0.1", nil)
		const probes = 20
		for k := 0; k < probes; k++ {
			asker.Send(query(fmt.Sprintf("late%d", k), "ping", ref.D(ref.E("id", ref.S("CLIENTclient01234567")))), s.addr)
		}
		got := 0
		buf := make([]byte, 2000)
		deadline := time.Now().Add(8 * time.Second)
		for got < probes {
			nc.SetReadDeadline(deadline)
			n, _, err := nc.ReadFromUDP(buf)
			if err != nil {
				if ok, _ := udpx.Lossless(s.port); ok {
					R.Violate("address-disturbed", fmt.Sprintf("the socket that took over the address got %d of %d datagrams: %v", got, probes, err), w)
				}
				break
			}
			if strings.Contains(string(buf[:n]), "late") {
				got++
			}
		}
		if round%10 == 0 {
			time.Sleep(20 * time.Millisecond)
		}
		for k := 0; k < probes; k++ {
			if _, ok := ran.Load(fmt.Sprintf("late%d", k)); ok {
				R.Violate("served-after-close", "a query that arrived after close reached the closed server's handler", w)
				break
			}
		}
		R.Count("rebinds", 1)
		R.Count("datagrams_after_close", int64(got))
		nc.Close()
		asker.Close()
		in.Close()
	}
}

// k07udp: the socket layer alone, whose receivers can be seen to end.
func k07udp() {
	R := h.R
	base := runtime.NumGoroutine()
	for round := 0; round < h.N(60, 1000) && R.Bad() == 0; round++ {
		r := h.Rand("k07udp", round)
		var u *krpc.UdpServer
		port := 0
		for i := 0; i < 100 && u == nil; i++ {
			port = udpx.FreePort()
			h.Try(func() { u = krpc.StartUdpServer(fmt.Sprintf("127.0.0.1:%d", port)) })
		}
		if u == nil {
			h.Fatal("cannot start a UDP server")
		}
		in := sock("127.0.0.1", nil)
		// fewer than the server may hold unconsumed
		for k := r.Intn(40); k > 0; k-- {
			in.Send([]byte("x"), udpx.Loop(port))
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		}
		var wg sync.WaitGroup
		closers := 1 + r.Intn(6)
		for i := 0; i < closers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 3; k++ {
					if err := u.Close(); err != nil {
						R.Violate("close-error", "closing a server again or at once from several goroutines reported "+err.Error(), map[string]int{"closers": closers})
						return
					}
				}
			}()
		}
		wg.Wait()
		if err := u.SendPacket([]byte("x"), in.Addr); err == nil {
			R.Violate("send-after-close", "a send after close reported success", nil)
		}
		in.Close()
		R.Count("udp_servers_closed", 1)
		R.Eval(fmt.Sprintf("udp|%d", closers))
	}
	// closing does not depend on anybody reading what has arrived
	for round := 0; round < h.N(6, 40) && R.Bad() == 0; round++ {
		r := h.Rand("k07full", round)
		var u *krpc.UdpServer
		port := 0
		for i := 0; i < 100 && u == nil; i++ {
			port = udpx.FreePort()
			h.Try(func() { u = krpc.StartUdpServer(fmt.Sprintf("127.0.0.1:%d", port)) })
		}
		if u == nil {
			h.Fatal("cannot start a UDP server")
		}
		in := sock("127.0.0.1", nil)
		sent := []int{55, 80, 95, 150, 400, 1500}[round%6]
		for k := 0; k < sent; k++ {
			in.Send(h.Bytes(r, 1+r.Intn(900)), udpx.Loop(port))
		}
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		done := make(chan error, 1)
		go func() { done <- u.Close() }()
		select {
		case err := <-done:
			if err != nil {
				R.Violate("close-error", "closing a server reported "+err.Error(), map[string]int{"unread": sent})
			}
		case <-time.After(20 * time.Second):
			R.Violate("close-hang", fmt.Sprintf("%d datagrams arrived and nobody reads them: closing the server had not returned after 20 s", sent), nil)
			return
		}
		if !h.Wait(10*time.Second, func() bool {
			c, err := net.ListenUDP("udp", udpx.Loop(port))
			if err == nil {
				c.Close()
			}
			return err == nil
		}) {
			R.Violate("port-kept", fmt.Sprintf("%d datagrams arrived and nobody reads them: the port cannot be used again 10 s after the server was closed", sent), nil)
		}
		// read what is left, so that the receiver can end
		h.Try(func() {
			for {
				select {
				case _, ok := <-u.RecvChan():
					if !ok {
						return
					}
				case <-time.After(50 * time.Millisecond):
					return
				}
			}
		})
		in.Close()
		R.Count("udp_servers_closed_with_backlog", 1)
		R.Eval(fmt.Sprintf("backlog|%d", sent))
	}
	if !h.Goroutines(base+2, 20*time.Second) {
		R.Violate("receiver-kept", fmt.Sprintf("%d goroutines remain after every server was closed, %d before any was started", runtime.NumGoroutine(), base), nil)
	}
}

func laddr(host string, port int) *net.UDPAddr {
	if host == "" {
		return &net.UDPAddr{Port: port}
	}
	return &net.UDPAddr{IP: net.ParseIP(host), Port: port}
}
