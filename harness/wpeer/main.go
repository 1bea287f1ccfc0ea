// Worker for the metadata fetcher: the real peerwire.FetchMetaData of /repo
// against simulated peers on loopback TCP.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
	"github.com/GalaIO/P2Pcrawler/misc"

	"verifharness/h"
	"verifharness/peersim"
	"verifharness/ref"
)

func main() {
	h.Init()
	misc.SetLevel(misc.INFO) // stdout is /dev/null: the real logging runs too
	go watchStalls()
	switch h.Prop {
	case "P01":
		p01()
	case "P02":
		p02()
	case "P03":
		p03()
	case "P04":
		p04()
	case "P05":
		p05()
	case "R01":
		r01()
	default:
		h.Fatal("unknown property %q", h.Prop)
	}
	h.R.Finish()
	os.Exit(0)
}

// ---- how late this process is being scheduled

type gap struct {
	at   time.Time
	late time.Duration
}

var (
	gapMu sync.Mutex
	gaps  []gap
)

func watchStalls() {
	for {
		t := time.Now()
		time.Sleep(2 * time.Millisecond)
		if l := time.Since(t) - 2*time.Millisecond; l > 20*time.Millisecond {
			gapMu.Lock()
			gaps = append(gaps, gap{t, l})
			gapMu.Unlock()
		}
	}
}

// stalled tells the longest scheduling delay seen since t.
func stalled(t time.Time) time.Duration {
	gapMu.Lock()
	defer gapMu.Unlock()
	var m time.Duration
	for i := len(gaps) - 1; i >= 0 && gaps[i].at.Add(gaps[i].late).After(t); i-- {
		if gaps[i].late > m {
			m = gaps[i].late
		}
	}
	return m
}

// ---- one fetch

type result struct {
	ret   []byte
	err   error
	pan   interface{}
	dur   time.Duration
	start time.Time
}

func fetch(addr, peerId, hash string) (r result) {
	r.start = time.Now()
	p, bad := h.Try(func() { r.ret, r.err = peerwire.FetchMetaData(addr, []byte(peerId), []byte(hash)) })
	r.dur = time.Since(r.start)
	if bad {
		r.pan = p
		h.R.Violate("panic", fmt.Sprintf("the fetch panicked to its caller: %v", p), nil)
	}
	return
}

// sound is what every fetch must satisfy, whatever the peer did.
func sound(r result, hash, what string) bool {
	switch {
	case r.pan != nil:
		return false
	case r.err == nil && peersim.Hash(r.ret) != hash:
		h.R.Violate("wrong-data", fmt.Sprintf("%s: the fetch of %x returned %d bytes whose SHA-1 is %x", what, hash, len(r.ret), peersim.Hash(r.ret)), h.Hex(r.ret))
		return false
	case r.err != nil && len(r.ret) != 0:
		h.R.Violate("data-with-error", fmt.Sprintf("%s: the fetch returned an error (%v) together with %d bytes", what, r.err, len(r.ret)), nil)
		return false
	}
	return true
}

func listen() *peersim.Server {
	s, err := peersim.Listen("127.0.0.1:0")
	if err != nil {
		h.Fatal("listen: %v", err)
	}
	return s
}

func metadata(r *rand.Rand, size int) []byte {
	b := h.Bytes(r, size)
	switch r.Intn(5) {
	case 0:
		for i := range b {
			b[i] = "de0:i1l"[int(b[i])%7]
		}
	case 1:
		for i := range b {
			b[i] = 0
		}
		r.Read(b[:(size+7)/8])
	case 2:
		// looks like messages of the protocol
		f := peersim.Piece(1, r.Intn(3), size, []byte("data"))
		for i := 0; i < size; i += len(f) {
			copy(b[i:], f)
		}
		if size > 20 {
			r.Read(b[:8])
		}
	case 3:
		if size > 64 {
			v := ref.D(ref.E("length", ref.I(int64(size))), ref.E("name", ref.S("file")), ref.E("piece length", ref.I(16384)), ref.E("pieces", ref.S("")))
			base := len(ref.Encode(v))
			n := size - base - len(fmt.Sprint(size)) // roughly fills
			if n > 0 {
				v = ref.D(ref.E("length", ref.I(int64(size))), ref.E("name", ref.S("file")), ref.E("piece length", ref.I(16384)), ref.E("pieces", ref.S(string(h.Bytes(r, n)))))
				copy(b, ref.Encode(v))
			}
		}
	}
	return b
}

type retry struct {
	coop *peersim.Coop
	seed int64
	why  string
}

var (
	retryMu sync.Mutex
	retries []retry
)

// coop runs one fetch from a cooperative peer and judges it. It returns the
// fetched data (nil unless all is well) and the connection.
// reserve waits until no other worker is busy with the same torrent: small
// metadata may be equal by chance.
func reserve(hash string) func() {
	for {
		if _, busy := reserved.LoadOrStore(hash, true); !busy {
			return func() { reserved.Delete(hash) }
		}
		time.Sleep(time.Millisecond)
	}
}

var reserved sync.Map

func coop(s *peersim.Server, p *peersim.Coop, seed int64, peerId string) ([]byte, *peersim.Log) {
	return coopTry(s, p, seed, peerId, true)
}

func coopTry(s *peersim.Server, p *peersim.Coop, seed int64, peerId string, first bool) ([]byte, *peersim.Log) {
	hash := peersim.Hash(p.Meta)
	s.Plan(hash, p.Play(seed))
	h.Journal("cooperative peer: %s seed=%d", p, seed)
	r := fetch(s.Addr(), peerId, hash)
	what := "cooperative peer (" + p.String() + ")"
	var lg *peersim.Log
	if l := s.Logs(hash); len(l) == 1 {
		lg = l[0]
	} else if len(l) > 1 {
		h.R.Violate("connections", fmt.Sprintf("%s: one fetch opened %d connections", what, len(l)), nil)
	}
	if !sound(r, hash, what) {
		return nil, lg
	}
	if r.err == nil {
		if string(r.ret) != string(p.Meta) {
			h.R.Violate("not-exact", what+": the returned metadata differs", nil)
			return nil, lg
		}
		return r.ret, lg
	}
	delivered := time.Duration(0)
	if lg != nil {
		delivered = lg.Delivered()
	}
	desc := fmt.Sprintf("%s: the fetch failed after %v (%v), the peer had delivered everything after %v, scheduling delays up to %v", what, r.dur, r.err, delivered, stalled(r.start))
	w := map[string]interface{}{"peer": p.String(), "seed": seed, "received": ""}
	if lg != nil {
		b, _ := lg.Recv()
		w["received"] = h.Hex(b)
	}
	// nothing of the fetcher's time limit had been used up, or the peer was
	// quick and the machine too
	late := stalled(r.start)
	if r.dur < 800*time.Millisecond || delivered > 0 && delivered < 400*time.Millisecond && late < 50*time.Millisecond {
		h.R.Violate("cooperative-fetch-failed", desc, w)
		return nil, lg
	}
	if delivered == 0 && late < 50*time.Millisecond && r.dur < 20*time.Second {
		// it never asked for what it needed although the peer was waiting
		h.R.Count("retried_never_delivered", 1)
	}
	if first {
		retryMu.Lock()
		retries = append(retries, retry{p, seed, desc})
		retryMu.Unlock()
	} else {
		h.R.Count("solo_failures", 1)
	}
	return nil, lg
}

// settle runs what failed on a busy machine again, alone.
func settle(peerId string) {
	retryMu.Lock()
	rs := retries
	retries = nil
	retryMu.Unlock()
	for k, x := range rs {
		if k >= 12 || h.R.Violated() {
			break
		}
		ok := false
		slow := 0
		for i := 0; i < 3 && !ok; i++ {
			s := listen()
			t := time.Now()
			b, _ := coopTry(s, x.coop, x.seed, peerId, false)
			s.Close()
			ok = b != nil
			if stalled(t) > 100*time.Millisecond {
				slow++
			}
		}
		if !ok && slow == 0 {
			h.R.Violate("cooperative-fetch-failed", x.why+"; three more attempts alone failed as well", map[string]interface{}{"peer": x.coop.String(), "seed": x.seed})
		} else if !ok {
			h.R.Unclear("%s", x.why)
		} else {
			h.R.Count("succeeded_when_run_alone", 1)
		}
	}
}

func each(n, workers int, f func(w, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || h.R.Bad() > 3 {
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
}

const maxMeta = peersim.MaxMeta

func sizeFor(r *rand.Rand, i int) int {
	const P = peersim.PieceSize
	switch {
	case i < 20:
		return 1 + i
	case i < 110:
		k := (i - 20) / 3
		n := (k+1)*P + (i-20)%3 - 1
		return n
	}
	switch r.Intn(10) {
	case 0:
		return 1 + r.Intn(64)
	case 1, 2:
		return 1 + r.Intn(P)
	case 3, 4, 5:
		return P + r.Intn(6*P)
	case 6:
		return (1+r.Intn(12))*P + r.Intn(3) - 1
	default:
		return 1 + r.Intn(20*P)
	}
}

// ---- P02

func p02() {
	R := h.R
	R.Rule = "fetches from protocol-following peers that vary size, piece order, own extension id, segmentation, noise, handshake extras, repeats and pace; distinct = size class x these choices; oracle: byte equality with what the peer served, failure judged only when the peer was quick and the process was being scheduled"
	stop := h.Guard("hang", "cooperative fetches", time.Duration(h.N(240, 3000))*time.Second)
	defer stop()
	peerId := string(h.Bytes(h.Rand("peer"), 20))
	s := listen()
	each(h.N(2600, 60000), 8, func(w, i int) {
		r := h.Rand("p02", i)
		p := peersim.RandomCoop(r, metadata(r, sizeFor(r, i)))
		defer reserve(peersim.Hash(p.Meta))()
		b, lg := coop(s, p, r.Int63(), peerId)
		one(p, b, lg)
		s.Take(peersim.Hash(p.Meta))
		if i < 3 {
			R.Sample(p.String())
		}
	})
	// the largest
	for i, n := range []int{maxMeta, maxMeta - 1, 1 << 20, 8<<20 + 1, 3<<20 - 1, 12<<20 + 16383}[:h.N(5, 6)] {
		for k := 0; k < h.N(2, 12); k++ {
			r := h.Rand("big", i, k)
			p := peersim.RandomCoop(r, h.Bytes(r, n))
			p.Seg.Kind = []int{0, 1, 2}[k%3]
			p.Noise = 1
			b, lg := coop(s, p, r.Int63(), peerId)
			one(p, b, lg)
			s.Take(peersim.Hash(p.Meta))
		}
	}
	s.Close()
	settle(peerId)
}

func one(p *peersim.Coop, b []byte, lg *peersim.Log) {
	R := h.R
	n := len(p.Meta)
	class := fmt.Sprint(peersim.Pieces(n), n%peersim.PieceSize == 0, n%peersim.PieceSize == 1, n < 64)
	R.Eval(fmt.Sprintf("%s|%d|%d|%d|%d|%v|%v|%v", class, p.Ut, p.Order, p.Noise, p.Seg.Kind, p.Early, p.Extras, p.Repeat))
	if b != nil {
		R.Count("exact_results", 1)
		R.Count("bytes_compared", int64(len(b)))
		R.Count("pieces", int64(peersim.Pieces(n)))
		R.Max("largest", int64(n))
	}
}

// ---- P05

// special is 20 bytes of which some look like an end or a beginning.
func special(r *rand.Rand, i int) string {
	b := h.Bytes(r, 20)
	fill := []byte{0, 255, 20, ' ', '%'}[r.Intn(5)]
	switch i % 6 {
	case 1:
		b[0], b[1] = fill, fill
	case 2:
		b[19], b[18] = fill, fill
	case 3:
		for k := range b {
			if k > 0 {
				b[k] = fill
			}
		}
	case 4:
		copy(b, "BitTorrent protocol")
	case 5:
		b[r.Intn(20)] = fill
		b[r.Intn(20)] = fill
	}
	return string(b)
}

func p05() {
	R := h.R
	R.Rule = "everything the fetcher writes to cooperative and hostile peers is logged and parsed; distinct = peer behaviour x size class x piece requests seen; oracle: an independent parser of the wire protocol that allows one handshake, one extension handshake and each piece request once, with the peer's id"
	stop := h.Guard("hang", "wire logs", time.Duration(h.N(240, 3000))*time.Second)
	defer stop()
	s := listen()
	each(h.N(1500, 40000), 8, func(w, i int) {
		r := h.Rand("p05", i)
		peerId := string(h.Bytes(r, 20))
		p := peersim.RandomCoop(r, metadata(r, sizeFor(r, i)))
		if i%5 == 0 {
			p.Repeat = true
		}
		if i%11 == 0 {
			top := 4 << 20
			if i%55 == 0 {
				top = 15 << 20 // hundreds of pieces
			}
			p.Meta = h.Bytes(r, 1+r.Intn(top))
			if p.Seg.Kind > 2 {
				p.Seg.Kind = 2
			}
		}
		hash := peersim.Hash(p.Meta)
		defer reserve(hash)()
		defer s.Take(hash)
		b, lg := coop(s, p, r.Int63(), peerId)
		one(p, b, lg)
		if lg == nil {
			R.Unclear("no connection to judge")
			return
		}
		if b == nil {
			return // judged above
		}
		h.Wait(5*time.Second, func() bool { e, _ := lg.Ended(); return e })
		sent, over := lg.Recv()
		ended, _ := lg.Ended()
		if over {
			return
		}
		bad, n := peersim.Check(sent, hash, peerId, p.Ut, len(p.Meta), true, ended)
		if bad != "" {
			R.Violate("wire", fmt.Sprintf("to a cooperative peer (%s): %s", p, bad), h.Hex(sent))
		}
		R.Count("wire_logs", 1)
		R.Count("requests_checked", int64(n))
		s.Take(hash)
	})
	s.Close()
	settle(string(h.Bytes(h.Rand("peer"), 20)))
	// hostile peers: whatever was sent is still nothing but the protocol
	s = listen()
	hs := peersim.Hostile()
	var planned sync.Map
	each(len(hs)*h.N(2, 20), 48, func(w, i int) {
		x := hs[i%len(hs)]
		r := h.Rand("p05h", i)
		hash := special(r, i)
		peerId := special(r, i/3)
		if x.Heavy {
			return
		}
		planned.Store(hash, true)
		s.Plan(hash, x.Script(r))
		h.Journal("hostile peer: %s", x.Name)
		fetch(s.Addr(), peerId, hash)
		l := s.Take(hash)
		if len(l) != 1 {
			return
		}
		h.Wait(2*time.Second, func() bool { e, _ := l[0].Ended(); return e || l[0].Done() })
		sent, over := l[0].Recv()
		if over || len(sent) < 68 {
			return
		}
		bad, n := peersim.Check(sent, hash, peerId, x.Ut, x.Size, false, true)
		R.Eval(fmt.Sprintf("hostile|%s|%d", x.Name, n))
		if bad != "" {
			R.Violate("wire", fmt.Sprintf("to a hostile peer (%s): %s", x.Name, bad), h.Hex(sent))
		}
		R.Count("wire_logs_hostile", 1)
	})
	// every handshake names a torrent that was asked for
	logs, _ := s.All()
	for hash, l := range logs {
		if _, ok := planned.Load(hash); !ok && len(l) > 0 {
			sent, _ := l[0].Recv()
			R.Violate("wire", fmt.Sprintf("a handshake names the torrent %x, which no fetch was for", hash), h.Hex(sent))
		}
	}
	s.Close()
}

// ---- P04

func p04() {
	R := h.R
	R.Rule = "many fetches at once from cooperative peers among misbehaving ones, all results kept to the end; distinct = peer choices x size class; oracle: each result equals what its own peer served, again after all later fetches"
	stop := h.Guard("hang", "concurrent fetches", time.Duration(h.N(300, 3000))*time.Second)
	defer stop()
	p04run(h.N(3, 40), h.N(900, 2500))
	p04crowd(h.N(2, 20))
	settle(string(h.Bytes(h.Rand("peer"), 20)))
}

// p04crowd: as many fetches at once as the crawler has workers for, every one
// of them in progress when the last begins.
func p04crowd(rounds int) {
	const crowd = 520
	for round := 0; round < rounds && h.R.Bad() < 3; round++ {
		peerId := string(h.Bytes(h.Rand("peer", round), 20))
		s := listen()
		each(crowd, crowd, func(w, i int) {
			r := h.Rand("p04crowd", round, i)
			p := peersim.RandomCoop(r, h.Bytes(r, 20+r.Intn(3000)))
			p.Delay = 250 * time.Millisecond
			b, lg := coop(s, p, r.Int63(), peerId)
			one(p, b, lg)
		})
		s.Close()
		h.R.Max("crowd", crowd)
	}
}

func p04run(rounds, fetches int) {
	R := h.R
	type kept struct {
		b    []byte
		hash string
	}
	var mu sync.Mutex
	var all []kept
	hs := peersim.Hostile()
	for round := 0; round < rounds && R.Bad() < 3; round++ {
		peerId := string(h.Bytes(h.Rand("peer", round), 20))
		srv := []*peersim.Server{listen(), listen(), listen()}
		var inflight, peak int64
		each(fetches, []int{24, 48, 96}[round%3], func(w, i int) {
			r := h.Rand("p04", round, i)
			s := srv[r.Intn(len(srv))]
			n := atomic.AddInt64(&inflight, 1)
			defer atomic.AddInt64(&inflight, -1)
			if n > atomic.LoadInt64(&peak) {
				atomic.StoreInt64(&peak, n)
			}
			if r.Intn(10) == 0 {
				x := hs[r.Intn(len(hs))]
				if x.Heavy {
					return
				}
				hash := string(h.Bytes(r, 20))
				s.Plan(hash, x.Script(r))
				res := fetch(s.Addr(), peerId, hash)
				sound(res, hash, "hostile peer "+x.Name)
				s.Take(hash)
				R.Count("hostile_fetches", 1)
				return
			}
			size := 1 + r.Intn(70000)
			if r.Intn(4) == 0 {
				size = 1 + r.Intn(400)
			}
			p := peersim.RandomCoop(r, metadata(r, size))
			defer reserve(peersim.Hash(p.Meta))()
			b, lg := coop(s, p, r.Int63(), peerId)
			one(p, b, lg)
			s.Take(peersim.Hash(p.Meta))
			if b != nil {
				mu.Lock()
				all = append(all, kept{b, peersim.Hash(p.Meta)})
				mu.Unlock()
			}
		})
		R.Max("fetches_at_once", peak)
		for _, s := range srv {
			s.Close()
		}
		for _, k := range all {
			if peersim.Hash(k.b) != k.hash {
				R.Violate("altered-later", fmt.Sprintf("the metadata of %x (%d bytes) was altered after it had been returned", k.hash, len(k.b)), nil)
				break
			}
		}
		R.Count("results_rechecked", int64(len(all)))
		if len(all) > 3000 {
			all = all[len(all)-3000:]
		}
	}
}

func r01() {
	R := h.R
	R.Rule = "concurrent metadata fetches from cooperative and hostile peers under the race detector"
	stop := h.Guard("hang", "concurrent fetches", time.Duration(h.N(300, 3000))*time.Second)
	defer stop()
	p04run(h.N(1, 6), h.N(300, 2000))
	// what is printed orders the accesses around it and hides races
	misc.SetLevel(misc.PANIC)
	defer misc.SetLevel(misc.INFO)
	p04run(h.N(1, 6), h.N(300, 2000))
	// many peers of one kind at the same time
	srv := listen()
	hs := peersim.Hostile()
	const many = 6
	each(many*len(hs), 48, func(w, i int) {
		x := hs[i/many]
		if x.Heavy {
			return
		}
		r := h.Rand("r01h", i)
		hash := string(h.Bytes(r, 20))
		srv.Plan(hash, x.Script(r))
		fetch(srv.Addr(), string(h.Bytes(h.Rand("peer"), 20)), hash)
		srv.Take(hash)
		R.Eval("together|" + x.Name)
	})
	srv.Close()
	runtime.GC()
}
