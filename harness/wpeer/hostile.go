package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/h"
	"verifharness/peersim"
	"verifharness/ref"
)

// ---- P01

// liar answers every request but not with the truth.
func p01() {
	R := h.R
	R.Rule = "peers that serve other data than asked for: flipped bits, swapped, truncated, padded and foreign pieces, other hashes in the handshake, data whose SHA-1 shares bytes with the hash, size lies, interleaved with honest peers; distinct = kind of lie x size class x outcome; oracle: SHA-1 recomputed over what the fetch returned"
	stop := h.Guard("hang", "fetches from lying peers", time.Duration(h.N(240, 3000))*time.Second)
	defer stop()
	s := listen()
	hs := peersim.Hostile()
	peerId := string(h.Bytes(h.Rand("peer"), 20))
	each(h.N(3000, 60000), 64, func(w, i int) {
		r := h.Rand("p01", i)
		size := 1 + r.Intn(60000)
		switch r.Intn(5) {
		case 0:
			size = 1 + r.Intn(30)
		case 1:
			size = peersim.PieceSize * (1 + r.Intn(3))
		}
		meta := h.Bytes(r, size)
		hash := peersim.Hash(meta)
		defer reserve(hash)()
		kind := r.Intn(26)
		if kind == 21 {
			x := hs[r.Intn(len(hs))]
			if x.Heavy {
				return
			}
			s.Plan(hash, x.Script(r))
			res := fetch(s.Addr(), peerId, hash)
			sound(res, hash, x.Name)
			R.Eval(fmt.Sprintf("hostile|%s|%v", x.Name, res.err == nil))
			s.Take(hash)
			return
		}
		if kind == 20 {
			p := peersim.RandomCoop(r, meta)
			b, _ := coop(s, p, r.Int63(), peerId)
			R.Eval(fmt.Sprintf("honest|%d|%v", peersim.Pieces(size), b != nil))
			if b != nil {
				R.Count("honest_results", 1)
			}
			s.Take(hash)
			return
		}
		lie, name, ask := lieAbout(r, kind, meta, hash)
		if ask == "" {
			ask = hash
		}
		s.Plan(ask, lie)
		h.Journal("lying peer: %s size=%d", name, size)
		res := fetch(s.Addr(), peerId, ask)
		sound(res, ask, "lying peer: "+name)
		R.Eval(fmt.Sprintf("%s|%d|%d|%v|%v", name, peersim.Pieces(size), size%peersim.PieceSize/1024, res.err == nil, res.dur > 500*time.Millisecond))
		R.Count("lies_told", 1)
		if res.err == nil {
			R.Count("truth_found_anyway", 1)
		} else {
			R.Count("refused", 1)
		}
		s.Take(ask)
	})
	// large metadata
	each(h.N(60, 1200), 4, func(w, i int) {
		r := h.Rand("p01large", i)
		size := []int{100 << 10, 300 << 10, 1<<20 - 1, 1 << 20, 1<<20 + 1, 2 << 20, 3<<20 + 7, 5 << 20, 9 << 20, maxMeta}[i%10]
		if i >= 10 {
			size -= r.Intn(90 << 10)
		}
		meta := h.Bytes(r, size)
		kind := []int{0, 1, 2, 3, 6, 7, 15}[r.Intn(7)]
		lie, name, ask := lieAbout(r, kind, meta, peersim.Hash(meta))
		if ask == "" {
			ask = peersim.Hash(meta)
		}
		s.Plan(ask, lie)
		h.Journal("lying peer: %s size=%d", name, size)
		res := fetch(s.Addr(), peerId, ask)
		sound(res, ask, fmt.Sprintf("lying peer with %d bytes: %s", size, name))
		R.Eval(fmt.Sprintf("large|%s|%d|%v", name, size>>16, res.err == nil))
		R.Count("large_lies_told", 1)
		if res.err != nil && res.dur < 800*time.Millisecond {
			R.Count("large_lies_judged_in_time", 1)
		}
		s.Take(ask)
	})
	s.Close()
	settle(peerId)
}

// serve announces size and sends the given pieces in the given order.
func serve(size int64, hsHash string, nums []int64, pieces [][]byte, early bool) peersim.Script {
	return func(c *peersim.Conn) {
		hash := c.Hash
		if hsHash != "" {
			hash = hsHash
		}
		c.Write(append(peersim.Handshake(hash, "LIARLIARLIARLIARLIAR", peersim.OkReserved), peersim.ExtHs(ref.I(1), ref.I(size))...))
		if !early {
			c.Next(2 * time.Second) // its extension handshake
			c.Next(2 * time.Second) // a request, if there is one
		}
		for i, n := range nums {
			if _, err := c.Write(peersim.Data(ref.I(n), ref.I(1), ref.I(size), pieces[i])); err != nil {
				return
			}
		}
		c.Gone(20 * time.Second)
	}
}

func split(b []byte) (n []int64, p [][]byte) {
	for i := 0; i < peersim.Pieces(len(b)); i++ {
		n = append(n, int64(i))
		p = append(p, peersim.PieceOf(b, i))
	}
	return
}

func lieAbout(r *rand.Rand, kind int, meta []byte, hash string) (peersim.Script, string, string) {
	other := append([]byte(nil), meta...)
	size := int64(len(meta))
	early := r.Intn(4) == 0
	n, p := split(other)
	switch kind {
	case 0:
		other[r.Intn(len(other))] ^= 1 << uint(r.Intn(8))
		n, p = split(other)
		return serve(size, "", n, p, early), "one bit flipped", ""
	case 1:
		other[len(other)-1] ^= 1
		n, p = split(other)
		return serve(size, "", n, p, early), "last byte changed", ""
	case 2:
		other[0] ^= 0x80
		n, p = split(other)
		return serve(size, "", n, p, early), "first byte changed", ""
	case 3:
		r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		return serve(size, "", n, p, early), "pieces under each other's numbers", ""
	case 4:
		k := r.Intn(len(p))
		p[k] = p[k][:r.Intn(len(p[k])+1)]
		return serve(size, "", n, p, early), "a shortened piece", ""
	case 5:
		k := r.Intn(len(p))
		p[k] = append(append([]byte(nil), p[k]...), h.Bytes(r, 1+r.Intn(100))...)
		return serve(size, "", n, p, early), "a lengthened piece", ""
	case 6:
		o := h.Bytes(r, len(meta))
		n, p = split(o)
		return serve(size, peersim.Hash(o), n, p, early), "another torrent and its hash in the handshake", ""
	case 7:
		o := h.Bytes(r, 1+r.Intn(40000))
		n, p = split(o)
		return serve(int64(len(o)), "", n, p, early), "another torrent", ""
	case 8:
		o := append(append([]byte(nil), meta...), h.Bytes(r, 1+r.Intn(40000))...)
		if r.Intn(2) == 0 {
			// what a careless reader might strip
			o = append(append([]byte(nil), meta...), bytes.Repeat([]byte{"\x00\n e\xff\r"[r.Intn(6)]}, 1+r.Intn(8))...)
		}
		n, p = split(o)
		return serve(int64(len(o)), "", n, p, early), "the data and more", ""
	case 9:
		k := r.Intn(len(meta))
		n, p = split(meta[:k])
		return serve(int64(k), "", n, p, early), "only a prefix", ""
	case 10:
		// the pieces of a bigger announcement never come
		return serve(size+int64(1+r.Intn(50000)), "", n, p, early), "size too large, then silence", ""
	case 11:
		k := int64(r.Intn(len(meta)))
		return serve(k, "", n, p, early), "size too small, all pieces", ""
	case 12, 13, 14:
		// same first bytes, same last bytes, or both ends
		o := h.Bytes(r, 24)
		h0 := peersim.Hash(o)
		name := []string{"hash shares its first bytes", "hash shares its last bytes", "hash shares first and last byte"}[kind-12]
		for i := 0; i < 1<<18; i++ {
			x := append([]byte(nil), o...)
			binary.BigEndian.PutUint32(x[4:], uint32(i))
			h1 := peersim.Hash(x)
			if h1 == h0 {
				continue
			}
			if kind == 12 && h1[:2] == h0[:2] || kind == 13 && h1[18:] == h0[18:] || kind == 14 && h1[0] == h0[0] && h1[19] == h0[19] {
				n, p = split(x)
				break
			}
		}
		return serve(24, "", n, p, early), name, h0
	case 15:
		// truth first, then one piece overwritten before the last arrives
		if len(p) < 2 {
			other[0] ^= 1
			n, p = split(other)
			return serve(size, "", n, p, early), "one bit flipped", ""
		}
		bad := append([]byte(nil), p[0]...)
		bad[r.Intn(len(bad))] ^= 4
		nn := append(append([]int64{}, n[:len(n)-1]...), 0, n[len(n)-1])
		pp := append(append([][]byte{}, p[:len(p)-1]...), bad, p[len(p)-1])
		return serve(size, "", nn, pp, early), "a piece replaced after it was sent", ""
	case 16:
		// zeros where data should be
		n, p = split(make([]byte, len(meta)))
		return serve(size, "", n, p, early), "zeros", ""
	case 17:
		if len(p) > 1 {
			n = n[:len(n)-1]
			p = p[:len(p)-1]
		} else {
			n, p = nil, nil
		}
		return serve(size, "", n, p, early), "the last piece withheld", ""
	case 18:
		return serve(0, "", nil, nil, early), "size zero", ""
	case 22, 23, 24, 25:
		// the data is what it is; the hash asked for is nearly its own
		b := []byte(hash)
		name := ""
		switch k := r.Intn(7); k {
		case 0:
			name = "the hash asked for ends in zeros"
			for i := 20 - 1 - r.Intn(20); i < 20; i++ {
				b[i] = 0
			}
		case 1:
			name = "the hash asked for begins with zeros"
			for i := r.Intn(20); i >= 0; i-- {
				b[i] = 0
			}
		case 2:
			name = "the hash asked for differs in one bit"
			b[r.Intn(20)] ^= 1 << uint(r.Intn(8))
		case 3:
			name = "the hash asked for differs in case"
			for i, x := range b {
				if x >= 'A' && x <= 'Z' || x >= 'a' && x <= 'z' {
					b[i] ^= 0x20
				}
			}
		case 4:
			name = "the hash asked for differs in bytes above 127"
			for i, x := range b {
				if x >= 0xf8 {
					b[i] = x ^ 1
				}
			}
		case 5:
			name = "the hash asked for has its bytes in another order"
			r.Shuffle(20, func(i, j int) { b[i], b[j] = b[j], b[i] })
		case 6:
			name = "the hash asked for agrees up to a zero byte"
			// data whose hash has such a byte
			x := h.Bytes(r, 24)
			for i := 0; i < 1<<12; i++ {
				binary.BigEndian.PutUint32(x[4:], uint32(i))
				b = []byte(peersim.Hash(x))
				if z := bytes.IndexByte(b, 0); z >= 0 && z < 19 {
					n, p = split(x)
					size = 24
					b[z+1+r.Intn(19-z)] ^= byte(1 + r.Intn(255))
					break
				}
			}
		}
		if string(b) == hash {
			b[19] ^= 1
		}
		return serve(size, "", n, p, early), name, string(b)
	default:
		return serve(0, "", nil, nil, early), "an all-zero hash and nothing", strings.Repeat("\x00", 19) + string([]byte{byte(r.Intn(256))})
	}
}

// ---- P03

const memLimit = 160 << 20 // 128 MiB and what a collector may lag behind

func heapNow() int64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return int64(s[0].Value.Uint64())
}

func p03() {
	R := h.R
	R.Rule = "a library of hostile peers, every kind in several variants, alone with memory watched and many at once; distinct = kind of misbehaviour x variant outcome; oracle: 30 s clock in scheduled ticks, panic monitor, heap samples, connection end seen by the peer, goroutine balance"
	base := runtime.NumGoroutine()
	peerId := string(h.Bytes(h.Rand("peer"), 20))
	hs := peersim.Hostile()

	// many at once; no collection, it would close what the fetcher forgot
	gc := debug.SetGCPercent(-1)
	limit := debug.SetMemoryLimit(6 << 30)
	before := sockets()
	s := listen()
	each(len(hs)*h.N(3, 30), 64, func(w, i int) {
		x := hs[i%len(hs)]
		if x.Heavy {
			return
		}
		p03one(s, x, i, peerId, false)
	})
	s.Close()
	if !h.Wait(20*time.Second, func() bool { return sockets() <= before }) {
		R.Violate("connection-left-open", fmt.Sprintf("20 seconds after the last of the fetches ended and the peers hung up, the process has %d sockets more than before", sockets()-before), nil)
	}
	R.Max("sockets_left", int64(sockets()-before))
	debug.SetMemoryLimit(limit)
	debug.SetGCPercent(gc)
	// the heavy ones, alone; the collector keeps close to what is live
	debug.SetGCPercent(10)
	for k := 0; k < h.N(1, 8) && R.Bad() < 3; k++ {
		for i, x := range hs {
			if R.Bad() >= 3 {
				break
			}
			if x.Heavy || i%9 == k%9 {
				s := listen()
				p03one(s, x, 100000+1000*k+i, peerId, true)
				s.Close()
			}
		}
	}
	debug.SetGCPercent(100)
	p03dial(peerId)
	if !h.Goroutines(base, 20*time.Second) {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		if n > 30000 {
			n = 30000
		}
		R.Violate("goroutine-left", fmt.Sprintf("%d goroutines remain after all fetches ended, %d before", runtime.NumGoroutine(), base), string(buf[:n]))
	}
	R.Max("goroutines_at_the_end", int64(runtime.NumGoroutine()-base))
}

func p03one(s *peersim.Server, x peersim.HostilePeer, i int, peerId string, solo bool) {
	R := h.R
	r := h.Rand("p03", i)
	hash := string(h.Bytes(r, 20))
	s.Plan(hash, x.Script(r))
	h.Journal("hostile peer: %s", x.Name)
	res := make(chan result, 1)
	var stopMem int32
	memDone := make(chan int64, 1)
	if solo {
		runtime.GC()
		start := heapNow()
		go func() {
			var peak int64
			for atomic.LoadInt32(&stopMem) == 0 {
				if m := heapNow() - start; m > peak {
					peak = m
				}
				if peak > 3<<30 {
					break // seen enough; the sandbox is shared
				}
				time.Sleep(500 * time.Microsecond)
			}
			memDone <- peak
		}()
	}
	go func() { res <- fetch(s.Addr(), peerId, hash) }()
	var out result
	// thirty seconds and a margin, counted in scheduled ticks
	ticks := 0
	over := false
loop:
	for {
		select {
		case out = <-res:
			break loop
		case <-time.After(100 * time.Millisecond):
			ticks++
			if ticks > 320 {
				over = true
				break loop
			}
			if solo {
				select {
				case p := <-memDone:
					memDone <- p
					R.Violate("memory", fmt.Sprintf("peer that %q: the fetch made the heap grow by more than %d MiB", x.Name, p>>20), nil)
					R.Finish()
				default:
				}
			}
		}
	}
	atomic.StoreInt32(&stopMem, 1)
	if over {
		R.Violate("hang", fmt.Sprintf("peer that %q: the fetch had not ended after 32 seconds", x.Name), nil)
		s.Close()
		select {
		case <-res:
		case <-time.After(5 * time.Second):
		}
		if solo {
			<-memDone
		}
		return
	}
	R.Eval(fmt.Sprintf("%s|%v|%v", x.Name, out.err, solo))
	R.Count("hostile_fetches", 1)
	R.Max("longest_fetch_ms", int64(out.dur/time.Millisecond))
	if solo {
		p := <-memDone
		R.Max("heap_growth_mib", p>>20)
		R.Max("heap_growth_mib: "+x.Name, p>>20)
		if p > memLimit {
			R.Violate("memory", fmt.Sprintf("peer that %q: the heap grew by %d MiB during one fetch", x.Name, p>>20), nil)
		}
	}
	sound(out, hash, "hostile peer "+x.Name)
	if out.pan == nil && out.err == nil {
		R.Violate("no-error", fmt.Sprintf("peer that %q: the fetch reported success", x.Name), nil)
	}
	// its connection is closed
	l := s.Take(hash)
	if len(l) > 1 {
		R.Violate("connections", fmt.Sprintf("peer that %q: %d connections", x.Name, len(l)), nil)
	}
	for _, lg := range l {
		closed := false
		// a look now and then: looking costs memory and nothing is collected meanwhile
		for wait := 10 * time.Millisecond; !closed && wait < 6*time.Second; wait *= 2 {
			e, how := lg.Ended()
			closed = e && !strings.Contains(how, "closed network connection") || !held(lg.From, s.Addr())
			if !closed {
				time.Sleep(wait)
			}
		}
		if !closed {
			R.Violate("connection-left-open", fmt.Sprintf("peer that %q: 10 seconds after the fetch ended its connection is still open", x.Name), nil)
		} else {
			R.Count("connections_seen_closed", 1)
		}
	}
}

// sockets counts the sockets of this process.
func sockets() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		h.Fatal("list descriptors: %v", err)
	}
	n := 0
	for _, e := range d {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(to, "socket:") {
			n++
		}
	}
	return n
}

// held tells whether this process still has the socket: an end that is closed
// has no inode any more, whatever the kernel still has to deliver.
func held(local, remote string) bool {
	hexAddr := func(a string) string {
		u, err := net.ResolveTCPAddr("tcp4", a)
		if err != nil || u.IP.To4() == nil {
			return "?"
		}
		ip := u.IP.To4()
		return fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], u.Port)
	}
	b, err := os.ReadFile("/proc/net/tcp")
	if err != nil {
		return true
	}
	l, r := hexAddr(local), hexAddr(remote)
	for _, line := range strings.Split(string(b), "\n") {
		w := strings.Fields(line)
		if len(w) > 9 && w[1] == l && w[2] == r {
			return w[9] != "0"
		}
	}
	return false
}

// p03dial covers peers that cannot be connected to.
func p03dial(peerId string) {
	R := h.R
	r := h.Rand("dial")
	hash := string(h.Bytes(r, 20))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		h.Fatal("listen: %v", err)
	}
	refused := l.Addr().String()
	l.Close()
	var wg sync.WaitGroup
	try := func(what, addr string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			done := make(chan result, 1)
			go func() { done <- fetch(addr, peerId, hash) }()
			for ticks := 0; ; {
				select {
				case out := <-done:
					sound(out, hash, what)
					if out.pan == nil && out.err == nil {
						R.Violate("no-error", what+": the fetch reported success", nil)
					}
					R.Eval("dial|" + what)
					return
				case <-time.After(100 * time.Millisecond):
					if ticks++; ticks > 320 {
						R.Violate("hang", what+": the fetch had not ended after 32 seconds", nil)
						return
					}
				}
			}
		}()
	}
	try("connection refused", refused)
	try("no port", "127.0.0.1")
	try("port zero", "127.0.0.1:0")
	try("port out of range", "127.0.0.1:70000")
	try("empty address", "")
	// nobody answers the connection attempt: a full backlog
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err == nil {
		defer syscall.Close(fd)
		if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) == nil && syscall.Listen(fd, 0) == nil {
			if sa, err := syscall.Getsockname(fd); err == nil {
				addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
				var fill []net.Conn
				for i := 0; i < 4; i++ {
					c, err := net.DialTimeout("tcp", addr, 200*time.Millisecond)
					if err != nil {
						break
					}
					fill = append(fill, c)
				}
				if len(fill) < 4 {
					R.Count("full_backlog_peers", 1)
				}
				try("nobody answers the connection attempt", addr)
				defer func() {
					for _, c := range fill {
						c.Close()
					}
				}()
			}
		}
	}
	wg.Wait()
}
