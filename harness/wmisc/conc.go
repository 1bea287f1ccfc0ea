package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/anishathalye/porcupine"

	"verifharness/h"
)

var t0 = time.Now()

func now() int64 { return int64(time.Since(t0)) }

// jitter perturbs the schedule a little.
func jitter(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := r.Intn(200); i > 0; i-- {
			runtime.KeepAlive(i)
		}
	case 2:
		if r.Intn(20) == 0 {
			time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
		}
	}
}

// ---- M01

type mapIn struct {
	Op  string
	Key string
	Val string
}
type mapOut struct {
	Val string
	OK  bool
}

var mapModel = porcupine.Model{
	Partition: func(ops []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range ops {
			k := o.Input.(mapIn).Key
			m[k] = append(m[k], o)
		}
		var out [][]porcupine.Operation
		for _, v := range m {
			out = append(out, v)
		}
		return out
	},
	Init: func() interface{} { return "" },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		i, o := in.(mapIn), out.(mapOut)
		cur := st.(string)
		switch i.Op {
		case "put":
			return true, i.Val
		case "del":
			return true, ""
		case "get":
			return o.OK == (cur != "") && o.Val == cur, cur
		case "take":
			return o.OK == (cur != "") && o.Val == cur, ""
		}
		return false, cur
	},
	DescribeOperation: func(in, out interface{}) string {
		i, o := in.(mapIn), out.(mapOut)
		return fmt.Sprintf("%s(%s,%s)->%q,%v", i.Op, i.Key, i.Val, o.Val, o.OK)
	},
}

func m01() {
	R := h.R
	R.Rule = "short concurrent histories of put/get/delete/take with unique values over few keys; non-trivial = a history with overlapping operations on one key; oracle: porcupine linearizability check per key against a register-with-deletion, plus the race detector and a wide crash stress"
	stop := h.Guard("stuck", "registry operations never return", 3*time.Minute)
	hist := h.N(2500, 40000)
	if h.Scenario == "short" {
		hist = 400
	}
	for i := 0; i < hist; i++ {
		r := h.Rand("m01", i)
		m := misc.NewSyncMap(r.Intn(4))
		procs := 2 + r.Intn(5)
		nkeys := 1 + r.Intn(3)
		opsPer := 3 + r.Intn(8)
		fewValues := i%3 == 2 // an equal value put again is a put all the same
		ops := make([][]porcupine.Operation, procs)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for p := 0; p < procs; p++ {
			wg.Add(1)
			pr := rand.New(rand.NewSource(r.Int63()))
			go func(p int) {
				defer wg.Done()
				<-gate
				for k := 0; k < opsPer; k++ {
					in := mapIn{Key: fmt.Sprintf("k%d", pr.Intn(nkeys))}
					out := mapOut{}
					jitter(pr)
					c := now()
					switch x := pr.Intn(10); {
					case x < 4:
						in.Op, in.Val = "put", fmt.Sprintf("%d.%d", p, k)
						if fewValues {
							in.Val = []string{"v", "w"}[pr.Intn(4)/3]
						}
						m.Put(in.Key, in.Val)
					case x < 7:
						in.Op = "get"
						v, ok := m.Get(in.Key)
						out.OK = ok
						if v != nil {
							out.Val, _ = v.(string)
						}
					case x < 9:
						in.Op = "del"
						m.Del(in.Key)
					default:
						in.Op = "take"
						v, ok := m.Take(in.Key)
						out.OK = ok
						if v != nil {
							out.Val, _ = v.(string)
						}
					}
					ops[p] = append(ops[p], porcupine.Operation{ClientId: p, Input: in, Call: c, Output: out, Return: now()})
				}
			}(p)
		}
		close(gate)
		wg.Wait()
		var all []porcupine.Operation
		for _, o := range ops {
			all = append(all, o...)
		}
		overlaps := countOverlaps(all)
		key := ""
		if overlaps > 0 {
			key = fmt.Sprint(i, overlaps, len(all))
		}
		R.Eval(key)
		R.Count("operations", int64(len(all)))
		R.Count("overlapping_pairs", int64(overlaps))
		res := porcupine.CheckOperationsTimeout(mapModel, all, 60*time.Second)
		if res == porcupine.Unknown {
			R.Unclear("history %d: checker timed out", i)
		}
		if res == porcupine.Illegal {
			var d []string
			for _, o := range all {
				d = append(d, fmt.Sprintf("p%d [%d,%d] %s", o.ClientId, o.Call, o.Return, mapModel.DescribeOperation(o.Input, o.Output)))
			}
			R.Violate("not-linearizable", "no sequential order explains this history", d)
		}
		if i < 2 {
			R.Sample(fmt.Sprintf("history %d: %d processes, %d keys, %d operations, %d overlapping pairs", i, procs, nkeys, len(all), overlaps))
		}
	}
	// wide stress: growth, many keys, all operations
	stress := h.N(20000, 400000)
	if h.Scenario == "short" {
		stress = 4000
	}
	m := misc.NewSyncMap(1)
	var wg sync.WaitGroup
	for p := 0; p < 12; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			r := h.Rand("m01s", p)
			for i := 0; i < stress; i++ {
				own := fmt.Sprintf("own%d.%d", p, i%500)
				m.Put(own, p*1000000+i)
				if v, ok := m.Get(own); !ok || v != p*1000000+i {
					R.Violate("lost-update", "a key only one goroutine writes did not read back", fmt.Sprintf("%s: %v %v", own, v, ok))
					return
				}
				shared := fmt.Sprintf("s%d", r.Intn(50))
				switch r.Intn(3) {
				case 0:
					m.Put(shared, i)
				case 1:
					m.Get(shared)
				case 2:
					m.Del(shared)
				}
				if i%3 == 0 {
					m.Del(own)
					if _, ok := m.Get(own); ok {
						R.Violate("not-deleted", "a deleted key of one goroutine is still there", own)
						return
					}
				}
			}
		}(p)
	}
	wg.Wait()
	R.Count("stress_operations", int64(12*stress*4))
	m01values()
	m01keys()
	m01many()
	stop()
}

// m01many: no number of entries is too large.
func m01many() {
	R := h.R
	n := h.N(150000, 1500000)
	if h.Scenario == "short" {
		n = 20000
	}
	m := misc.NewSyncMap(10)
	for i := 0; i < n; i++ {
		m.Put(fmt.Sprint("many", i), i)
	}
	r := h.Rand("many")
	for i := 0; i < n; i++ {
		key := fmt.Sprint("many", i)
		if r.Intn(2) == 0 {
			if v, ok := m.Get(key); !ok || v != interface{}(i) {
				R.Violate("lost-update", fmt.Sprintf("of %d entries, entry %d reads %v, %v", n, i, v, ok), nil)
				return
			}
		}
		if v, ok := m.Take(key); !ok || v != interface{}(i) {
			R.Violate("lost-update", fmt.Sprintf("of %d entries, taking entry %d gives %v, %v", n, i, v, ok), nil)
			return
		}
		if i%5 == 0 {
			if _, ok := m.Get(key); ok {
				R.Violate("not-deleted", fmt.Sprintf("of %d entries, entry %d is still there when taken", n, i), nil)
				return
			}
		}
	}
	R.Eval("many entries")
	R.Max("entries_held", int64(n))
}

// m01keys: keys that resemble each other are different keys.
func m01keys() {
	R := h.R
	long := strings.Repeat("k", 5000)
	keys := []string{"", " ", "  ", "k", "K", " k", "k ", "k\n", "\tk", "k\x00", "\x00k", "\x00", "\x00\x00", "0", "00", "+0", "-0", "k.", "k:", "k:k", "kk",
		"\xff", "\xfe", "\xff\xfe", "\ufffd", "\xc3\xa9", "e\xcc\x81", "\xc3\x89", "ß", "ss", "%20", "*", "k*", "../k", "/k", "k/", "nil", "null",
		long, long + "k", long[:4999] + "l", "l" + long[1:], long[:2500] + "l" + long[2501:]}
	for c := 0; c < 256; c++ {
		keys = append(keys, "t"+string([]byte{byte(c)}), string([]byte{byte(c), 0x80, byte(c)}))
	}
	r := h.Rand("m01keys")
	for round := 0; round < h.N(4, 60); round++ {
		m := misc.NewSyncMap(r.Intn(64))
		gone := map[string]bool{}
		for i, k := range r.Perm(len(keys)) {
			m.Put(keys[k], k)
			if i%3 == 0 {
				R.Eval(fmt.Sprintf("key|%d|%d", round, k))
			}
		}
		check := func() bool {
			for k, key := range keys {
				v, ok := m.Get(key)
				if ok == gone[key] || ok && v != interface{}(k) {
					R.Violate("keys-confused", fmt.Sprintf("key %s reads %v, %v; stored: %v, %v", h.HexS(key), v, ok, k, !gone[key]), nil)
					return false
				}
			}
			return true
		}
		if !check() {
			return
		}
		for _, k := range r.Perm(len(keys))[:len(keys)/2] {
			if r.Intn(2) == 0 {
				m.Del(keys[k])
			} else if v, ok := m.Take(keys[k]); !ok || v != interface{}(k) {
				R.Violate("keys-confused", fmt.Sprintf("taking key %s gives %v, %v; stored: %v", h.HexS(keys[k]), v, ok, k), nil)
				return
			}
			gone[keys[k]] = true
		}
		if !check() {
			return
		}
	}
	R.Count("resembling_keys", int64(len(keys)))
}

// m01values: any value is stored, also one that cannot be compared.
func m01values() {
	R := h.R
	m := misc.NewSyncMap(0)
	calls := 0
	vals := []interface{}{
		func() { calls++ }, []byte("x"), map[string]int{"a": 1}, nil, struct{ f func() }{}, 7, "s", []interface{}{1}, misc.Dict{"d": misc.List{}},
	}
	for i := 0; i < 400; i++ {
		v := vals[i%len(vals)]
		key := []string{"", "k", "\x00", "long key with spaces", "k2"}[i%5]
		var got interface{}
		var ok bool
		p, panicked := h.Try(func() {
			m.Put(key, v)
			m.Put(key, v)
			got, ok = m.Get(key)
		})
		if panicked {
			R.Violate("value-panic", fmt.Sprintf("storing a %T panics: %v", v, p), nil)
			return
		}
		if !ok || fmt.Sprintf("%T %p", got, got) != fmt.Sprintf("%T %p", v, v) {
			R.Violate("lost-update", fmt.Sprintf("a stored %T reads back as %T, present=%v", v, got, ok), nil)
			return
		}
		if i%3 == 0 {
			if got, ok = m.Take(key); !ok {
				R.Violate("lost-update", fmt.Sprintf("a stored %T cannot be taken", v), nil)
			}
			if _, ok = m.Get(key); ok {
				R.Violate("not-deleted", "a taken key is still there", nil)
			}
		}
		R.Eval(fmt.Sprintf("value|%T|%q", v, key))
	}
}

func countOverlaps(ops []porcupine.Operation) int {
	n := 0
	for i := range ops {
		for j := i + 1; j < len(ops); j++ {
			a, b := ops[i], ops[j]
			if a.Input.(mapIn).Key == b.Input.(mapIn).Key && a.ClientId != b.ClientId && a.Call <= b.Return && b.Call <= a.Return {
				n++
			}
		}
	}
	return n
}

// ---- M02

type owners struct {
	mu sync.Mutex
	m  map[*byte]int
}

func (o *owners) take(b []byte, who int) (prev int, clash bool) {
	if cap(b) == 0 {
		return 0, false
	}
	p := &b[:1][0]
	o.mu.Lock()
	defer o.mu.Unlock()
	if w, ok := o.m[p]; ok {
		return w, true
	}
	o.m[p] = who
	return 0, false
}

func (o *owners) give(b []byte) {
	if cap(b) == 0 {
		return
	}
	o.mu.Lock()
	delete(o.m, &b[:1][0])
	o.mu.Unlock()
}

func m02() {
	R := h.R
	R.Rule = "many goroutines take buffers of mixed sizes, stamp all bytes with a token of their own, hold several for a while, verify and return them (some shortened first), over pools of different limits; distinct = pool x size x action; oracle: owner registry by address, token verification before return, exact length on every take, counted reuse against the idle limit"
	stop := h.Guard("blocked", "taking or returning a buffer blocks", 3*time.Minute)
	iters := h.N(4000, 60000)
	if h.Scenario == "short" {
		iters = 600
	}
	sizes := []int{1, 2, 3, 4, 7, 16, 63, 64, 65, 100, 1000, 1024, 4096, 32768}
	for round := 0; round < h.N(8, 40); round++ {
		r := h.Rand("m02", round)
		limit := []int{1, 2, 3, 8, 100, 10000, 0, 5}[round%8]
		width := sizes[r.Intn(len(sizes))]
		bp := misc.NewBytesPool(limit, width)
		own := &owners{m: map[*byte]int{}}
		var wg sync.WaitGroup
		var token int64
		for g := 0; g < 10; g++ {
			wg.Add(1)
			gr := rand.New(rand.NewSource(r.Int63()))
			go func(g int) {
				defer wg.Done()
				type held struct {
					b   []byte
					tok byte
					n   int
				}
				var hs []held
				check := func(x held, when string) bool {
					for i, c := range x.b {
						if c != x.tok {
							R.Violate("overwritten", fmt.Sprintf("a buffer of %d bytes changed at %d while held (%s)", x.n, i, when), map[string]int{"limit": limit, "size": x.n})
							return false
						}
					}
					return true
				}
				for i := 0; i < iters; i++ {
					if len(hs) < 6 && gr.Intn(2) == 0 {
						n := sizes[gr.Intn(len(sizes))]
						var b []byte
						if gr.Intn(4) == 0 {
							n = width
							b = bp.Get()
						} else {
							if gr.Intn(3) == 0 {
								n = 16
							}
							b = bp.GetBySize(n)
						}
						if len(b) != n {
							R.Violate("length", fmt.Sprintf("asked for %d bytes, got %d", n, len(b)), map[string]int{"limit": limit, "cap": cap(b)})
							return
						}
						if w, clash := own.take(b, g); clash {
							R.Violate("two-owners", fmt.Sprintf("goroutine %d got a buffer of %d bytes that goroutine %d still holds", g, n, w), map[string]int{"limit": limit})
							return
						}
						x := held{b: b, tok: byte(atomic.AddInt64(&token, 1)), n: n}
						for j := range b {
							b[j] = x.tok
						}
						hs = append(hs, x)
						R.Count("taken", 1)
					} else if len(hs) > 0 {
						k := gr.Intn(len(hs))
						x := hs[k]
						hs = append(hs[:k], hs[k+1:]...)
						if !check(x, "before return") {
							return
						}
						own.give(x.b)
						b := x.b
						if gr.Intn(2) == 0 {
							b = b[:gr.Intn(len(b)+1)]
							R.Count("returned_shortened", 1)
						}
						bp.Put(b)
						R.Count("returned", 1)
						R.Eval(fmt.Sprint(limit, " ", x.n, " ", len(b) == x.n))
					}
					jitter(gr)
				}
				for _, x := range hs {
					check(x, "at the end")
				}
			}(g)
		}
		wg.Wait()
		R.Sample(map[string]int{"round": round, "limit": limit, "width": width})
	}
	// idle limit, per size, with a shortened and a foreign return
	for _, limit := range []int{0, 1, 2, 5, 50} {
		for _, n := range []int{4, 100, 1024} {
			bp := misc.NewBytesPool(limit, 100)
			put := map[*byte]bool{}
			var keep [][]byte
			for i := 0; i < limit+20; i++ {
				b := make([]byte, n)
				keep = append(keep, b)
				put[&b[0]] = true
				if i%2 == 0 {
					bp.Put(b[:n/2])
				} else {
					bp.Put(b)
				}
			}
			reused := 0
			seen := map[*byte]bool{}
			for i := 0; i < limit+40; i++ {
				b := bp.GetBySize(n)
				if len(b) != n {
					R.Violate("length", fmt.Sprintf("asked for %d bytes, got %d", n, len(b)), map[string]int{"limit": limit})
				}
				if seen[&b[0]] {
					R.Violate("two-owners", "one buffer was handed out twice without being returned", map[string]int{"limit": limit, "size": n})
				}
				seen[&b[0]] = true
				keep = append(keep, b)
				if put[&b[0]] {
					reused++
				}
			}
			R.Eval(fmt.Sprint("limit ", limit, n))
			R.Count("idle_limit_cases", 1)
			R.Max("max_idle_observed", int64(reused))
			if reused > limit {
				R.Violate("idle-limit", fmt.Sprintf("a pool limited to %d idle buffers kept %d of %d bytes", limit, reused, n), nil)
			}
			runtime.KeepAlive(keep)
		}
	}
	// buffers far larger than the pools are used with
	for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20, 16 << 20, 40 << 20} {
		bp := misc.NewBytesPool(2, 1024)
		for i := 0; i < 3; i++ {
			a, b := bp.GetBySize(n), bp.GetBySize(n)
			if len(a) != n || len(b) != n {
				R.Violate("length", fmt.Sprintf("asked for %d bytes, got %d and %d", n, len(a), len(b)), nil)
				break
			}
			if &a[0] == &b[0] {
				R.Violate("two-owners", "one buffer was handed out twice without being returned", map[string]int{"size": n})
				break
			}
			bp.Put(a[:[]int{n, 0, 1, n / 2}[i%4]])
			bp.Put(b)
			R.Eval(fmt.Sprint("huge ", n))
		}
		for _, small := range []int{1, 1024, 1 << 20} {
			if b := bp.GetBySize(small); len(b) != small {
				R.Violate("length", fmt.Sprintf("asked for %d bytes, got %d", small, len(b)), nil)
			}
		}
		R.Count("huge_buffers", 6)
	}
	m02returns()
	m02sizes()
	stop()
}

// m02sizes: buffers of every small size, also none, and of odd capacities.
func m02sizes() {
	R := h.R
	bp := misc.NewBytesPool(3, 0)
	for i := 0; i < 3000; i++ {
		n := i % 40
		if i%7 == 0 {
			n = []int{0, 1, 7, 8, 9, 1023, 1025, 4097}[i/7%8]
		}
		b := bp.GetBySize(n)
		if len(b) != n {
			R.Violate("length", fmt.Sprintf("asked for %d bytes, got %d", n, len(b)), nil)
			return
		}
		if g := bp.Get(); len(g) != 0 {
			R.Violate("length", fmt.Sprintf("the pool for buffers of 0 bytes gave %d", len(g)), nil)
			return
		}
		switch i % 5 {
		case 0:
			bp.Put(b)
		case 1:
			bp.Put(b[:n/2])
		case 2:
			bp.Put(make([]byte, 0, n))
		case 3:
			bp.Put(make([]byte, n/2, n))
		case 4:
			bp.Put(nil)
			bp.Put([]byte{})
		}
		R.Eval(fmt.Sprintf("size|%d|%d", n, i%5))
	}
}

// m02returns: many goroutines return at the same moment what the pool has no
// room for; nobody takes anything, so whoever blocks blocks for ever.
func m02returns() {
	R := h.R
	rounds := h.N(4000, 60000)
	if h.Scenario == "short" {
		rounds = 500
	}
	for i := 0; i < rounds; i++ {
		limit := []int{0, 1, 1, 2, 3}[i%5]
		n := []int{16, 100, 1024}[i%3]
		bp := misc.NewBytesPool(limit, 100)
		gs := limit + 2 + i%6
		var back int32
		var ready sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < gs; g++ {
			ready.Add(1)
			go func(g int) {
				b := make([]byte, n)
				ready.Done()
				<-gate
				if g%4 == 3 {
					bp.GetBySize(n + 1)
				}
				bp.Put(b)
				atomic.AddInt32(&back, 1)
			}(g)
		}
		ready.Wait()
		close(gate)
		for k := 0; k < 100 && int(atomic.LoadInt32(&back)) < gs; k++ {
			runtime.Gosched()
		}
		if int(atomic.LoadInt32(&back)) < gs && !h.Wait(20*time.Second, func() bool { return int(atomic.LoadInt32(&back)) == gs }) {
			R.Violate("blocked", fmt.Sprintf("%d goroutines return a buffer at once to a pool for %d: %d of the returns never end", gs, limit, gs-int(atomic.LoadInt32(&back))), nil)
			return
		}
		R.Count("returns_at_once", int64(gs))
	}
	R.Eval("returns at once")
}

// ---- M03

// m03large: pools of the sizes the crawler is configured with.
func m03large(i int) {
	R := h.R
	size := []int{64, 101, 128, 257, 500, 1000, 2000}[i%7]
	pool := misc.NewWorkPool(context.Background(), fmt.Sprintf("m03large-%d", i), size)
	var running, done int32
	release := make(chan struct{})
	jobs := size + size/2 + 3
	var wg sync.WaitGroup
	for s := 0; s < 8; s++ {
		s := s
		wg.Add(1)
		go func() {
			defer wg.Done()
			for id := s; id < jobs; id += 8 {
				pool.AsyncSubmit(func() {
					atomic.AddInt32(&running, 1)
					<-release
					atomic.AddInt32(&running, -1)
					atomic.AddInt32(&done, 1)
				})
			}
		}()
	}
	wg.Wait()
	if !h.Wait(60*time.Second, func() bool { return int(atomic.LoadInt32(&running)) >= size }) {
		R.Violate("workers-idle", fmt.Sprintf("only %d of %d workers take jobs at once", atomic.LoadInt32(&running), size), nil)
	}
	time.Sleep(30 * time.Millisecond)
	if n := int(atomic.LoadInt32(&running)); n > size {
		R.Violate("too-many-running", fmt.Sprintf("%d jobs run at once on %d workers", n, size), nil)
	}
	close(release)
	if !h.Wait(60*time.Second, func() bool { return int(atomic.LoadInt32(&done)) >= jobs }) {
		R.Violate("job-lost", fmt.Sprintf("%d of %d jobs ran on %d workers", atomic.LoadInt32(&done), jobs, size), nil)
	}
	pool.Shutdown(30 * time.Second)
	if n := int(atomic.LoadInt32(&done)); n != jobs {
		R.Violate("not-once", fmt.Sprintf("%d executions of %d jobs", n, jobs), nil)
	}
	R.Eval(fmt.Sprintf("large|%d", size))
	R.Max("max_workers", int64(size))
}

// m03busy fills workers and queue for seconds while more jobs are submitted.
func m03busy(i int) {
	R := h.R
	size := 1 + i%3
	hold := time.Duration(h.N(6, 40)) * time.Second
	pool := misc.NewWorkPool(context.Background(), fmt.Sprintf("m03busy-%d", i), size)
	subs := 3 * size
	runs := make([]int32, 4*size+subs)
	var done int32
	var running, peak int32
	release := make(chan struct{})
	job := func(id int) func() {
		return func() {
			n := atomic.AddInt32(&running, 1)
			for old := atomic.LoadInt32(&peak); n > old && !atomic.CompareAndSwapInt32(&peak, old, n); old = atomic.LoadInt32(&peak) {
			}
			if id < size {
				<-release
			}
			atomic.AddInt32(&runs[id], 1)
			atomic.AddInt32(&done, 1)
			atomic.AddInt32(&running, -1)
		}
	}
	var wg sync.WaitGroup
	for s := 0; s < subs; s++ {
		s := s
		wg.Add(1)
		go func() {
			defer wg.Done()
			for id := s; id < len(runs); id += subs {
				p, panicked := h.Try(func() { pool.AsyncSubmit(job(id)) })
				if panicked {
					R.Violate("submit-panic", fmt.Sprintf("a running pool refused a job: %v", p), nil)
				}
			}
		}()
		if s < size {
			time.Sleep(20 * time.Millisecond)
		}
	}
	time.Sleep(hold)
	if n := atomic.LoadInt32(&done); n > int32(len(runs)) {
		R.Violate("not-once", fmt.Sprintf("%d jobs ran of %d", n, len(runs)), nil)
	}
	close(release)
	wg.Wait()
	if !h.Wait(60*time.Second, func() bool { return int(atomic.LoadInt32(&done)) >= len(runs) }) {
		R.Violate("job-lost", fmt.Sprintf("workers and queue were full for %v: %d of %d submitted jobs ran", hold, atomic.LoadInt32(&done), len(runs)), nil)
	}
	pool.Shutdown(30 * time.Second)
	if n := atomic.LoadInt32(&peak); n > int32(size) {
		R.Violate("too-many-running", fmt.Sprintf("a pool of %d ran %d jobs at once while its queue was full for %v", size, n, hold), nil)
	}
	for id := range runs {
		if n := atomic.LoadInt32(&runs[id]); n != 1 {
			R.Violate("not-once", fmt.Sprintf("job %d ran %d times", id, n), nil)
			break
		}
	}
	R.Eval(fmt.Sprintf("busy|%d", i))
	R.Count("jobs_behind_a_busy_pool", int64(len(runs)))
}

func m03() {
	R := h.R
	R.Rule = "pools of 1..16 workers under 1..12 concurrent submitters with jobs of random duration; distinct = workers x submitters x jobs x duration mix; oracle: per-job execution counter (exactly one), running-jobs high-water mark, an all-workers barrier, and submission order for one worker"
	stop := h.Guard("stuck", "accepted jobs never all ran", 3*time.Minute)
	rounds := h.N(240, 3000)
	if h.Scenario == "short" {
		rounds = 40
	}
	// a pool that is busy for long; beside the others
	var lazy sync.WaitGroup
	for i := 0; i < 6; i++ {
		lazy.Add(1)
		go func(i int) {
			defer lazy.Done()
			m03busy(i)
		}(i)
	}
	defer lazy.Wait()
	for i := 0; i < h.N(7, 70); i++ {
		m03large(i)
	}
	for round := 0; round < rounds; round++ {
		r := h.Rand("m03", round)
		size := 1 + r.Intn(16)
		if round%4 == 0 {
			size = 1
		}
		subs := 1 + r.Intn(12)
		per := 1 + r.Intn(80)
		mix := r.Intn(4)
		if size == 1 && round%8 == 0 {
			subs = 1
			per = 200
		}
		pool := misc.NewWorkPool(context.Background(), fmt.Sprintf("m03-%d", round), size)
		runs := make([]int32, subs*per)
		var running, high, done int32
		var omu sync.Mutex
		var order []int
		var wg sync.WaitGroup
		for s := 0; s < subs; s++ {
			wg.Add(1)
			sr := rand.New(rand.NewSource(r.Int63()))
			go func(s int) {
				defer wg.Done()
				for i := 0; i < per; i++ {
					id := s*per + i
					d := time.Duration(0)
					switch mix {
					case 1:
						d = time.Duration(sr.Intn(100)) * time.Microsecond
					case 2:
						if sr.Intn(30) == 0 {
							d = 2 * time.Millisecond
						}
					}
					pool.AsyncSubmit(func() {
						n := atomic.AddInt32(&running, 1)
						for {
							o := atomic.LoadInt32(&high)
							if n <= o || atomic.CompareAndSwapInt32(&high, o, n) {
								break
							}
						}
						if d > 0 {
							time.Sleep(d)
						} else {
							runtime.Gosched()
						}
						if size == 1 && subs == 1 {
							omu.Lock()
							order = append(order, id)
							omu.Unlock()
						}
						atomic.AddInt32(&runs[id], 1)
						atomic.AddInt32(&running, -1)
						atomic.AddInt32(&done, 1)
					})
					jitter(sr)
				}
			}(s)
		}
		wg.Wait()
		desc := map[string]int{"workers": size, "submitters": subs, "jobs_each": per, "mix": mix, "round": round}
		if round < 3 {
			R.Sample(desc)
		}
		if !h.Wait(60*time.Second, func() bool { return int(atomic.LoadInt32(&done)) >= subs*per }) {
			R.Violate("job-lost", fmt.Sprintf("%d of %d accepted jobs ran on an idle running pool", atomic.LoadInt32(&done), subs*per), desc)
			R.Finish()
		}
		// every worker can be busy at once
		var arrived int32
		release := make(chan struct{})
		fin := make(chan struct{}, size)
		for i := 0; i < size; i++ {
			pool.AsyncSubmit(func() {
				atomic.AddInt32(&arrived, 1)
				<-release
				fin <- struct{}{}
			})
		}
		if !h.Wait(60*time.Second, func() bool { return int(atomic.LoadInt32(&arrived)) == size }) {
			R.Violate("workers-idle", fmt.Sprintf("only %d of %d workers take jobs at once", atomic.LoadInt32(&arrived), size), desc)
			R.Finish()
		}
		// one more is accepted but must wait
		var extra int32
		pool.AsyncSubmit(func() { atomic.AddInt32(&extra, 1) })
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		if atomic.LoadInt32(&extra) != 0 {
			R.Violate("too-many-running", fmt.Sprintf("a job ran while all %d workers were busy", size), desc)
		}
		close(release)
		for i := 0; i < size; i++ {
			<-fin
		}
		if !h.Wait(60*time.Second, func() bool { return atomic.LoadInt32(&extra) == 1 }) {
			R.Violate("job-lost", "a job accepted while the workers were busy never ran", desc)
		}
		pool.Shutdown(30 * time.Second)
		for id, n := range runs {
			if n != 1 {
				R.Violate("not-once", fmt.Sprintf("job %d ran %d times", id, n), desc)
				break
			}
		}
		if extra != 1 {
			R.Violate("not-once", fmt.Sprintf("a job ran %d times", extra), desc)
		}
		if int(high) > size {
			R.Violate("too-many-running", fmt.Sprintf("%d jobs ran at once on %d workers", high, size), desc)
		}
		if size == 1 && subs == 1 {
			R.Count("order_checks", 1)
			for i, id := range order {
				if i != id {
					R.Violate("order", fmt.Sprintf("a single worker ran job %d at position %d", id, i), desc)
					break
				}
			}
		}
		R.Eval(fmt.Sprint(size, subs, per, mix))
		R.Count("jobs", int64(subs*per+size+1))
		R.Max("max_running", int64(high))
		R.Max("max_workers", int64(size))
	}
	stop()
}

// ---- M04

func m04() {
	R := h.R
	R.Rule = "pools shut down at random moments (queued jobs, submitters blocked on a full queue, running jobs, hanging jobs) by one or many concurrent callers and by context cancellation; distinct = workers x submitters x trigger x job kind; oracle: accepted jobs (submit returned) run exactly once, refused ones never, refusal is a panic, promptness by a 10-minute timeout that must not be used up, goroutines return to the baseline"
	stop := h.Guard("stuck", "pool shutdown does not end", 4*time.Minute)
	rounds := h.N(300, 4000)
	if h.Scenario == "short" {
		rounds = 60
	}
	base := runtime.NumGoroutine()
	m04prompt()
	m04grace()
	hung := 0
	for round := 0; round < rounds; round++ {
		r := h.Rand("m04", round)
		size := 1 + r.Intn(6)
		subs := 1 + r.Intn(6)
		per := 1 + r.Intn(30)
		trigger := []string{"shutdown", "concurrent", "cancel", "cancel+shutdown", "hang", "idle"}[round%6]
		if trigger == "hang" && round%18 != 4 {
			trigger = "concurrent"
		}
		desc := map[string]interface{}{"round": round, "workers": size, "submitters": subs, "jobs_each": per, "trigger": trigger}
		if round < 6 {
			R.Sample(desc)
		}
		ctx, cancel := someContext(h.Rand("m04ctx", round))
		pool := misc.NewWorkPool(ctx, fmt.Sprintf("m04-%d", round), size)
		if pool.Status() != misc.Running {
			R.Violate("status", "a new pool is not running", desc)
		}
		if trigger == "idle" {
			if r.Intn(2) == 0 {
				pool.AsyncSubmit(func() {})
			}
			subs = 0
		}
		runs := make([]int32, subs*per+1)
		accepted := make([]int32, subs*per+1) // 1 accepted, 2 refused
		var beganShut, bad int32
		jobWait := r.Intn(3)
		hangRelease := make(chan struct{})
		if trigger == "hang" {
			pool.AsyncSubmit(func() { <-hangRelease })
			// nothing may queue behind the hanging job on one worker
			if size == 1 {
				subs = 0
			}
		}
		var wg sync.WaitGroup
		var preAccepted []int // accepted before shutdown began, in this goroutine
		submit := func(id int, jr *rand.Rand) bool {
			d := time.Duration(0)
			if jobWait == 1 {
				d = time.Duration(jr.Intn(300)) * time.Microsecond
			} else if jobWait == 2 && jr.Intn(20) == 0 {
				d = 3 * time.Millisecond
			}
			p, panicked := h.Try(func() {
				pool.AsyncSubmit(func() {
					if d > 0 {
						time.Sleep(d)
					}
					atomic.AddInt32(&runs[id], 1)
				})
			})
			if panicked {
				atomic.StoreInt32(&accepted[id], 2)
				if atomic.LoadInt32(&beganShut) == 0 {
					if atomic.AddInt32(&bad, 1) == 1 {
						R.Violate("refused-running", fmt.Sprintf("a running pool refused a job: %v", p), desc)
					}
				}
				return false
			}
			atomic.StoreInt32(&accepted[id], 1)
			return true
		}
		if subs > 0 && trigger == "shutdown" {
			jr := rand.New(rand.NewSource(r.Int63()))
			for i := 0; i < per; i++ {
				if submit(i, jr) {
					preAccepted = append(preAccepted, i)
				}
			}
		}
		for s := 0; s < subs; s++ {
			if s == 0 && trigger == "shutdown" {
				continue
			}
			wg.Add(1)
			sr := rand.New(rand.NewSource(r.Int63()))
			go func(s int) {
				defer wg.Done()
				for i := 0; i < per; i++ {
					if !submit(s*per+i, sr) {
						return
					}
					jitter(sr)
				}
			}(s)
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(600)) * time.Microsecond)
		}
		long := 10 * time.Minute
		atomic.StoreInt32(&beganShut, 1)
		switch trigger {
		case "shutdown", "idle":
			pool.Shutdown(long)
			for _, id := range preAccepted {
				if atomic.LoadInt32(&runs[id]) != 1 {
					R.Violate("lost-at-return", fmt.Sprintf("shutdown returned although accepted job %d ran %d times", id, atomic.LoadInt32(&runs[id])), desc)
					break
				}
			}
			if trigger == "idle" {
				pool.Shutdown(long)
			}
		case "concurrent":
			var sw sync.WaitGroup
			for i := 0; i < 6; i++ {
				sw.Add(1)
				go func() { defer sw.Done(); pool.Shutdown(long) }()
			}
			sw.Wait()
		case "cancel":
			cancel()
		case "cancel+shutdown":
			var sw sync.WaitGroup
			for i := 0; i < 3; i++ {
				sw.Add(2)
				go func() { defer sw.Done(); cancel() }()
				go func() { defer sw.Done(); pool.Shutdown(long) }()
			}
			sw.Wait()
		case "hang":
			d := time.Duration(50+r.Intn(200)) * time.Millisecond
			s := time.Now()
			pool.Shutdown(d)
			if e := time.Since(s); e < d-5*time.Millisecond {
				R.Violate("gave-up-early", fmt.Sprintf("shutdown with a %v timeout returned after %v although a job was still running", d, e), desc)
			}
			hung++
			if pool.Status() != misc.Shutdowned {
				R.Violate("status", "shutdown returned but the pool does not report it", desc)
			}
			close(hangRelease)
		}
		if !h.Wait(60*time.Second, func() bool { return pool.Status() == misc.Shutdowned }) {
			R.Violate("status", "the pool never reports being shut down", desc)
			R.Finish()
		}
		// refused loudly from now on
		for i := 0; i < 3; i++ {
			ran := int32(0)
			p, panicked := h.Try(func() { pool.AsyncSubmit(func() { atomic.AddInt32(&ran, 1) }) })
			if !panicked {
				R.Violate("accepted-after", "a job submitted after shutdown was not refused", desc)
			}
			_ = p
		}
		wg.Wait()
		okAll := h.Wait(60*time.Second, func() bool {
			for id := range runs {
				if atomic.LoadInt32(&accepted[id]) == 1 && atomic.LoadInt32(&runs[id]) == 0 {
					return false
				}
			}
			return true
		})
		if !okAll {
			for id := range runs {
				if atomic.LoadInt32(&accepted[id]) == 1 && atomic.LoadInt32(&runs[id]) == 0 {
					R.Violate("accepted-lost", fmt.Sprintf("job %d was accepted and never ran", id), desc)
					break
				}
			}
		}
		acc, ref := 0, 0
		for id := range runs {
			n := atomic.LoadInt32(&runs[id])
			switch atomic.LoadInt32(&accepted[id]) {
			case 1:
				acc++
				if n > 1 {
					R.Violate("ran-twice", fmt.Sprintf("job %d ran %d times", id, n), desc)
				}
			case 2:
				ref++
				if n > 0 {
					R.Violate("refused-ran", fmt.Sprintf("job %d was refused and ran", id), desc)
				}
			}
		}
		cancel()
		pool.Shutdown(long)
		R.Count("accepted", int64(acc))
		R.Count("refused_by_shutdown", int64(ref))
		R.Eval(fmt.Sprint(size, subs, per, trigger, jobWait))
		if round%20 == 19 {
			if !h.Goroutines(base+2, 30*time.Second) {
				R.Violate("workers-kept", fmt.Sprintf("%d goroutines remain after every pool was shut down and every job ended (%d before)", runtime.NumGoroutine(), base), desc)
				R.Finish()
			}
			R.Count("released_checks", 1)
		}
	}
	R.Count("hanging_shutdowns", int64(hung))
	m04timeouts()
	m04bursts()
	m04streams()
	if !h.Goroutines(base+2, 30*time.Second) {
		R.Violate("workers-kept", fmt.Sprintf("%d goroutines remain after every pool was shut down and every job ended (%d before)", runtime.NumGoroutine(), base), nil)
	}
	stop()
}

// m04timeouts: every worker is busy and jobs (and blocked submitters) queue up
// behind, so that shutdown gives up at its timeout; once the workers are free
// again all that was accepted still runs once and the workers end.
func m04timeouts() {
	R := h.R
	n := h.N(120, 1200)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			r := h.Rand("m04timeouts", k)
			size := 1 + r.Intn(5)
			timeout := []time.Duration{0, -time.Second, 1, time.Millisecond, 30 * time.Millisecond, -1 << 63, 120 * time.Millisecond}[k%7]
			byCancel := k%20 == 19
			queued := r.Intn(size + 1)
			blocked := 0
			if queued == size {
				blocked = r.Intn(4)
			}
			desc := map[string]interface{}{"workers": size, "timeout": timeout.String(), "queued": queued, "blocked": blocked, "by_cancel": byCancel}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			pool := misc.NewWorkPool(ctx, fmt.Sprintf("m04t-%d", k), size)
			gate := make(chan struct{})
			total := size + queued + blocked
			runs := make([]int32, total)
			var busy, refused int32
			job := func(i int) func() {
				return func() {
					atomic.AddInt32(&busy, 1)
					<-gate
					atomic.AddInt32(&runs[i], 1)
				}
			}
			for i := 0; i < size; i++ {
				pool.AsyncSubmit(job(i))
			}
			if !h.Wait(60*time.Second, func() bool { return atomic.LoadInt32(&busy) == int32(size) }) {
				close(gate)
				R.Violate("workers-idle", fmt.Sprintf("only %d of %d workers take jobs at once", atomic.LoadInt32(&busy), size), desc)
				return
			}
			for i := size; i < size+queued; i++ {
				pool.AsyncSubmit(job(i))
			}
			var bw sync.WaitGroup
			for i := size + queued; i < total; i++ {
				bw.Add(1)
				go func(i int) {
					defer bw.Done()
					if _, panicked := h.Try(func() { pool.AsyncSubmit(job(i)) }); panicked {
						atomic.StoreInt32(&runs[i], -1)
						atomic.AddInt32(&refused, 1)
					}
				}(i)
			}
			if blocked > 0 {
				time.Sleep(5 * time.Millisecond)
			}
			s := time.Now()
			if byCancel {
				cancel()
				if !h.Wait(60*time.Second, func() bool { return pool.Status() == misc.Shutdowned }) {
					R.Violate("status", "the pool never reports being shut down", desc)
				}
			} else {
				pool.Shutdown(timeout)
				if e := time.Since(s); e+5*time.Millisecond < timeout {
					R.Violate("gave-up-early", fmt.Sprintf("shutdown with a %v timeout returned after %v although a job was still running", timeout, e), desc)
				}
			}
			if _, panicked := h.Try(func() { pool.AsyncSubmit(func() {}) }); !panicked {
				R.Violate("accepted-after", "a job submitted after shutdown was not refused", desc)
			}
			close(gate)
			bw.Wait()
			left := func() int {
				for i := range runs {
					if atomic.LoadInt32(&runs[i]) == 0 {
						return i
					}
				}
				return -1
			}
			if !h.Wait(30*time.Second, func() bool { return left() < 0 }) {
				R.Violate("accepted-lost", fmt.Sprintf("shutdown gave up at its timeout while all workers were busy; job %d, accepted before, never ran", left()), desc)
			}
			for i := range runs {
				if x := atomic.LoadInt32(&runs[i]); x > 1 {
					R.Violate("ran-twice", fmt.Sprintf("job %d ran %d times", i, x), desc)
				}
			}
			R.Eval(fmt.Sprint("timeout", size, queued, blocked, timeout, byCancel))
			R.Count("given_up_shutdowns", 1)
			R.Count("jobs_run_after_giving_up", int64(total-int(refused)))
		}(k)
	}
	wg.Wait()
}

// m04bursts: submitters that have just been accepted, or are about to be, at
// the moment shutdown begins, in very many small pools.
func m04bursts() {
	R := h.R
	rounds := h.N(12000, 200000)
	if h.Scenario == "short" {
		rounds = 1500
	}
	old := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(old)
	runtime.GOMAXPROCS(4 * old) // the kernel takes turns with the runtime
	var next int64 = -1
	var lost, accepted, refused int64
	var all sync.WaitGroup
	for w := 0; w < 8; w++ {
		all.Add(1)
		go func() {
			defer all.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= rounds || atomic.LoadInt64(&lost) > 2 {
					return
				}
				r := h.Rand("burst", i)
				size := 1 + r.Intn(2)
				subs := 2 + r.Intn(7)
				pool := misc.NewWorkPool(context.Background(), "m04burst", size)
				runs := make([]int32, subs)
				acc := make([]int32, subs)
				var wg sync.WaitGroup
				gate := make(chan struct{})
				for s := 0; s < subs; s++ {
					wg.Add(1)
					spin := r.Intn(60)
					go func(s int) {
						defer wg.Done()
						<-gate
						for k := 0; k < spin; k++ {
							runtime.KeepAlive(k)
						}
						_, panicked := h.Try(func() { pool.AsyncSubmit(func() { atomic.AddInt32(&runs[s], 1) }) })
						if !panicked {
							atomic.StoreInt32(&acc[s], 1)
						}
					}(s)
				}
				close(gate)
				for k := r.Intn(400); k > 0; k-- {
					runtime.KeepAlive(k)
				}
				pool.Shutdown(10 * time.Minute)
				sub := make(chan struct{})
				go func() { wg.Wait(); close(sub) }()
				select {
				case <-sub:
				case <-time.After(60 * time.Second):
					if !h.Wait(20*time.Second, func() bool {
						select {
						case <-sub:
							return true
						default:
							return false
						}
					}) {
						atomic.AddInt64(&lost, 3)
						R.Violate("submit-stuck", "a submission during shutdown neither returns nor panics", map[string]int{"round": i, "workers": size, "submitters": subs})
						return
					}
				}
				for s := range runs {
					s := s
					a := atomic.LoadInt32(&acc[s])
					if a == 1 {
						atomic.AddInt64(&accepted, 1)
					} else {
						atomic.AddInt64(&refused, 1)
					}
					if a == 1 && atomic.LoadInt32(&runs[s]) == 0 && !h.Wait(20*time.Second, func() bool { return atomic.LoadInt32(&runs[s]) == 1 }) {
						atomic.AddInt64(&lost, 1)
						R.Violate("accepted-lost", "a job accepted while shutdown began never ran", map[string]int{"round": i, "workers": size, "submitters": subs})
					}
					if n := atomic.LoadInt32(&runs[s]); n > a {
						atomic.AddInt64(&lost, 1)
						R.Violate("refused-ran", fmt.Sprintf("a job ran %d times, accepted=%d", n, a), map[string]int{"round": i})
					}
				}
			}
		}()
	}
	all.Wait()
	R.Count("burst_accepted", accepted)
	R.Count("burst_refused", refused)
	R.EvalN(int64(rounds))
	R.Eval("bursts")
}

// m04streams: submitters that keep a tiny pool's queue full until they are
// refused, shutdown at a random moment; every job is trivial, so that workers
// leave as early as they possibly can.
func m04streams() {
	R := h.R
	rounds := h.N(20000, 300000)
	if h.Scenario == "short" {
		rounds = 1500
	}
	old := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(old)
	runtime.GOMAXPROCS(4 * old)
	var next int64 = -1
	var lost, accepted int64
	var all sync.WaitGroup
	end := time.Now().Add(time.Duration(h.N(12, 120)) * time.Second)
	for w := 0; w < 8; w++ {
		all.Add(1)
		go func() {
			defer all.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= rounds || atomic.LoadInt64(&lost) > 2 || time.Now().After(end) {
					return
				}
				r := h.Rand("stream", i)
				size := 1 + r.Intn(3)
				subs := size + 1 + r.Intn(6)
				pool := misc.NewWorkPool(context.Background(), "m04stream", size)
				var ran, acc int64
				var wg sync.WaitGroup
				job := func() { atomic.AddInt64(&ran, 1) }
				for s := 0; s < subs; s++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() { recover() }()
						for k := 0; k < 5000; k++ {
							pool.AsyncSubmit(job)
							atomic.AddInt64(&acc, 1)
						}
					}()
				}
				for k := r.Intn(20000); k > 0; k-- {
					runtime.KeepAlive(k)
				}
				pool.Shutdown(10 * time.Minute)
				sub := make(chan struct{})
				go func() { wg.Wait(); close(sub) }()
				select {
				case <-sub:
				case <-time.After(80 * time.Second):
					atomic.AddInt64(&lost, 3)
					R.Violate("submit-stuck", "a submission during shutdown neither returns nor panics", map[string]int{"round": i, "workers": size, "submitters": subs})
					return
				}
				want := atomic.LoadInt64(&acc)
				atomic.AddInt64(&accepted, want)
				if atomic.LoadInt64(&ran) != want && !h.Wait(20*time.Second, func() bool { return atomic.LoadInt64(&ran) == want }) {
					atomic.AddInt64(&lost, 1)
					R.Violate("accepted-lost", fmt.Sprintf("of %d accepted jobs %d ran", want, atomic.LoadInt64(&ran)), map[string]int{"round": i, "workers": size, "submitters": subs})
				}
				R.Count("stream_pools", 1)
			}
		}()
	}
	all.Wait()
	R.Count("stream_accepted", accepted)
	R.EvalN(int64(next))
	R.Eval("streams")
}

// m04prompt measures what shutdown adds to the last job, or to its timeout. The
// best of many tries is judged: a loaded machine spoils some, not all of them.
// m04grace: a cancelled pool is not reported shut down while its jobs still have time.
func m04grace() {
	R := h.R
	for i := 0; i < h.N(6, 40); i++ {
		ctx, cancel := someContext(h.Rand("m04grace", i))
		size := 1 + i%3
		pool := misc.NewWorkPool(ctx, "m04grace", size)
		var ended int32
		for k := 0; k < 2*size; k++ {
			pool.AsyncSubmit(func() {
				time.Sleep(150 * time.Millisecond)
				atomic.AddInt32(&ended, 1)
			})
		}
		s := time.Now()
		cancel()
		for {
			st := pool.Status()
			over := time.Since(s)
			done := int(atomic.LoadInt32(&ended))
			if done == 2*size || over > 1500*time.Millisecond {
				break
			}
			if st == misc.Shutdowned {
				R.Violate("early-finish", fmt.Sprintf("a pool was cancelled with %d jobs of 150ms: %v later it reported to be shut down, %d jobs had ended", 2*size, over, done), nil)
				return
			}
			time.Sleep(time.Millisecond)
		}
		if !h.Wait(60*time.Second, func() bool { return pool.Status() == misc.Shutdowned }) {
			R.Violate("status", "a pool whose context ended does not shut down", nil)
			return
		}
		R.Eval(fmt.Sprintf("grace|%d|%v", size, ctx.Err()))
	}
}

func m04prompt() {
	R := h.R
	for _, timeout := range []time.Duration{0, -time.Second} {
		best := time.Hour
		for i := 0; i < 20 && best > 20*time.Millisecond; i++ {
			pool := misc.NewWorkPool(context.Background(), "m04zero", 1+i%3)
			release := make(chan struct{})
			pool.AsyncSubmit(func() { <-release })
			s := time.Now()
			pool.Shutdown(timeout)
			if d := time.Since(s); d < best {
				best = d
			}
			close(release)
		}
		R.Eval(fmt.Sprint("no time to wait: ", timeout))
		if best > 400*time.Millisecond {
			R.Violate("late", fmt.Sprintf("at its best, a shutdown that may wait %v returned after %v", timeout, best), nil)
		}
	}
	// jobs that hand in more work while the pool is being shut down: they are
	// refused at once, and keep nobody waiting
	for i := 0; i < 6; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		pool := misc.NewWorkPool(ctx, "m04within", 1+i)
		var refused, taken, ran int64
		begun := make(chan struct{})
		for k := 0; k <= i; k++ {
			pool.AsyncSubmit(func() {
				<-begun
				for pool.Status() == misc.Running {
					time.Sleep(time.Millisecond)
				}
				if _, panicked := h.Try(func() { pool.AsyncSubmit(func() { atomic.AddInt64(&ran, 1) }) }); panicked {
					atomic.AddInt64(&refused, 1)
				} else {
					atomic.AddInt64(&taken, 1)
				}
			})
		}
		time.AfterFunc(3*time.Millisecond, func() { close(begun) })
		done := make(chan struct{})
		go func() {
			defer close(done)
			pool.Shutdown(10 * time.Minute)
		}()
		if !h.Wait(20*time.Second, func() bool {
			select {
			case <-done:
				return true
			default:
				return false
			}
		}) {
			R.Violate("late", "a shutdown does not end when a job that was already running hands in another job meanwhile", nil)
		} else if atomic.LoadInt64(&refused) != int64(i+1) || atomic.LoadInt64(&ran) > 0 {
			R.Violate("accepted-late", fmt.Sprintf("of %d jobs handed in by running jobs during shutdown %d were refused", i+1, refused), nil)
		}
		R.Count("jobs_submitted_by_jobs_in_shutdown", int64(i+1))
		R.Eval(fmt.Sprintf("jobs submit in shutdown %d", i))
		cancel()
	}
	for _, hang := range []bool{false, true} {
		best := time.Hour
		for i := 0; i < h.N(25, 100); i++ {
			pool := misc.NewWorkPool(context.Background(), "m04prompt", 1+i%4)
			release := make(chan struct{})
			var end int64
			for k := 0; k < 1+i%4; k++ {
				pool.AsyncSubmit(func() {
					<-release
					atomic.StoreInt64(&end, now())
				})
			}
			timeout := 10 * time.Minute
			if hang {
				timeout = 40 * time.Millisecond
			} else {
				go func() { time.Sleep(5 * time.Millisecond); close(release) }()
			}
			s := time.Now()
			pool.Shutdown(timeout)
			over := time.Since(s) - timeout
			if !hang {
				over = time.Duration(now() - atomic.LoadInt64(&end))
			} else {
				close(release)
			}
			if over < best {
				best = over
			}
			if best < 20*time.Millisecond && i > 4 {
				break
			}
			if hang && over > 30*time.Second {
				break
			}
		}
		what := "the last job had ended"
		if hang {
			what = "its timeout had passed"
		}
		R.Max("best_shutdown_delay_us", int64(best/time.Microsecond))
		R.Eval("prompt: " + what)
		if best > 200*time.Millisecond {
			R.Violate("late", fmt.Sprintf("at its best, shutdown returned %v after %s", best, what), nil)
		}
	}
}
