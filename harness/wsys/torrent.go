package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/h"
	"verifharness/peersim"
	"verifharness/ref"
)

var torrentName = regexp.MustCompile(`^[0-9a-f]{40}\.torrent$`)

// dirWatch records what happens to the torrent directory as the kernel tells.
type dirWatch struct {
	fd   int
	dir  string
	mu   sync.Mutex
	ev   []string
	bad  []string
	seen map[string]int
	done chan struct{}
}

func watchDir(dir string) *dirWatch {
	fd, err := syscall.InotifyInit1(syscall.IN_CLOEXEC | syscall.IN_NONBLOCK)
	if err != nil {
		h.Fatal("inotify: %v", err)
	}
	if _, err := syscall.InotifyAddWatch(fd, dir, syscall.IN_CREATE|syscall.IN_MODIFY|syscall.IN_MOVED_TO|syscall.IN_DELETE|syscall.IN_CLOSE_WRITE|syscall.IN_MOVED_FROM); err != nil {
		h.Fatal("inotify %s: %v", dir, err)
	}
	w := &dirWatch{fd: fd, dir: dir, seen: map[string]int{}, done: make(chan struct{})}
	return w
}

// drain reads the pending events.
func (w *dirWatch) drain() {
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, buf)
		if n <= 0 || err != nil {
			return
		}
		for i := 0; i+16 <= n; {
			mask := binary.LittleEndian.Uint32(buf[i+4:])
			l := int(binary.LittleEndian.Uint32(buf[i+12:]))
			name := strings.TrimRight(string(buf[i+16:i+16+l]), "\x00")
			i += 16 + l
			w.mu.Lock()
			if mask&syscall.IN_Q_OVERFLOW != 0 {
				w.seen["overflow"]++
			}
			if torrentName.MatchString(name) {
				switch {
				case mask&syscall.IN_MODIFY != 0:
					w.bad = append(w.bad, name)
					w.seen["written in place"]++
				case mask&syscall.IN_MOVED_TO != 0:
					w.seen["moved into place"]++
				case mask&syscall.IN_CREATE != 0:
					w.seen["created"]++
				}
			} else {
				w.seen["other"]++
			}
			w.mu.Unlock()
		}
	}
}

func (w *dirWatch) Close() { syscall.Close(w.fd) }

// checkDir reads every visible torrent file and compares it with its name.
func checkDir(dir, when string) (n int) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return 0
	}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".torrent") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			continue
		}
		n++
		if !torrentName.MatchString(e.Name()) {
			h.R.Violate("misnamed", fmt.Sprintf("%s: a torrent file is named %q", when, e.Name()), nil)
			continue
		}
		if fmt.Sprintf("%x", peersim.Hash(b)) != strings.TrimSuffix(e.Name(), ".torrent") {
			h.R.Violate("incomplete-visible", fmt.Sprintf("%s: %s holds %d bytes that hash to %x", when, e.Name(), len(b), peersim.Hash(b)), nil)
		}
	}
	return
}

// ---- F01

func f01() {
	R := h.R
	R.Rule = "announcements of serving, lying and failing peers, several peers for one hash, with and without the directory, killed at random moments, on storage that is full, missing, occupied or repaired; distinct = size class x peers per hash x peer kind x run kind; oracle: file contents against what the peers served, kernel file events, content re-read by a poller, directory after kill -9"
	stop := h.Guard("hang", "storing torrents", time.Duration(h.N(280, 3000))*time.Second)
	defer stop()
	for round := 0; round < h.N(2, 10) && R.Bad() < 3; round++ {
		f01later(round)
	}
	for round := 0; round < h.N(3, 20) && R.Bad() == 0; round++ {
		f01run(round)
	}
	for round := 0; round < h.N(24, 300) && R.Bad() < 3; round++ {
		f01kill(round)
	}
	for round := 0; round < h.N(12, 120) && R.Bad() < 3; round++ {
		f01fault(round)
	}
}

type job struct {
	meta    []byte
	hash    string
	sources int
	good    bool
	kind    string
}

// f01later: info-hashes whose fetch failed once or several times, for every
// kind of failure, and which a peer that serves them announces later; and
// stored ones that are announced again, by peers that serve and by failing ones.
func f01later(round int) {
	R := h.R
	r := h.Rand("f01later", round)
	dir := newDir()
	tdir := filepath.Join(dir, "torrent")
	p := startIn(dir, Conf{Fetchers: []int{40, 7}[round%2]})
	defer p.Kill()
	bad := peerAt("127.0.0.1", 0)
	defer bad.Close()
	good := peerAt("127.0.0.1", 0)
	defer good.Close()
	kinds := []string{"lying", "silent", "cut off", "truncated", "unreachable", "none"}
	var jobs []*job
	for i := 0; i < 60; i++ {
		j := &job{meta: h.Bytes(r, 1+r.Intn(40000)), sources: 1, kind: kinds[i%len(kinds)]}
		j.hash = peersim.Hash(j.meta)
		jobs = append(jobs, j)
		bad.Plan(j.hash, script(r, j))
		good.Plan(j.hash, multi(r, j.meta))
	}
	stored := func(j *job) bool {
		b, err := os.ReadFile(filepath.Join(tdir, fmt.Sprintf("%x.torrent", j.hash)))
		return err == nil && bytes.Equal(b, j.meta)
	}
	failing := func(what string) {
		c := newClient("127.0.0.1", 0, r)
		defer c.S.Close()
		conns := 0
		for _, j := range jobs {
			port := bad.Port()
			switch j.kind {
			case "none":
				continue
			case "unreachable":
				port = 1
			default:
				conns++
			}
			t := c.Tid()
			if c.Ask(p.Addr, t, announce(t, c.Id, j.hash, port, nil), 20*time.Second) == nil && !p.exited() {
				R.Unclear("an announcement got no reply")
			}
		}
		// the fetches have failed
		h.Wait(30*time.Second, func() bool {
			n := 0
			for _, j := range jobs {
				for _, lg := range bad.Logs(j.hash) {
					if lg.Done() {
						n++
					}
				}
			}
			return n >= conns || p.exited()
		})
		for _, j := range jobs {
			bad.Take(j.hash)
			bad.Plan(j.hash, script(r, j))
		}
		time.Sleep(100 * time.Millisecond)
		R.Count("failed_fetches", int64(conns))
	}
	times := 1 + r.Intn(3)
	for k := 0; k < times; k++ {
		failing("before")
	}
	judge := func(when string) {
		ok := h.Wait(10*time.Second, func() bool {
			for _, j := range jobs {
				if !stored(j) {
					return p.exited()
				}
			}
			return true
		})
		if !p.Alive("storing torrents") {
			return
		}
		for _, j := range jobs {
			if !ok && !stored(j) {
				if again(p, good, j, stored) {
					R.Violate("not-stored", fmt.Sprintf("%s (first announced by a peer of kind %q): the metadata %x was served but is not stored", when, j.kind, j.hash), nil)
					return
				}
				R.Unclear("a fetch of %d bytes did not succeed", len(j.meta))
			}
			R.Eval(fmt.Sprintf("later|%s|%s|%d", when, j.kind, times))
			R.Count("files_compared", 1)
		}
		checkDir(tdir, when)
	}
	for _, j := range jobs {
		j.good = true
	}
	announceAll(p, jobs, good, false)
	judge("after failed fetches")
	if R.Bad() > 0 {
		return
	}
	// whoever announces them again, the files stay
	for _, j := range jobs {
		j.good = false
	}
	failing("after")
	if R.Bad() == 0 && p.Alive("storing torrents") {
		for _, j := range jobs {
			if !stored(j) {
				R.Violate("lost", fmt.Sprintf("the stored metadata %x is gone or changed after another peer (%s) announced it", j.hash, j.kind), nil)
				break
			}
		}
	}
	// a file that somebody removed is fetched and stored again
	for i, j := range jobs {
		if i%2 == 0 {
			os.Remove(filepath.Join(tdir, fmt.Sprintf("%x.torrent", j.hash)))
		}
	}
	announceAll(p, jobs, good, false)
	judge("announced again, half of the files removed")
}

// announceAll announces every job from its peers and returns when all were
// accepted.
func announceAll(p *Proc, jobs []*job, srv *peersim.Server, lie bool) {
	var wg sync.WaitGroup
	sem := make(chan bool, 24)
	cl := []*Client{}
	r := h.Rand("announce", p.Dir)
	for i := 0; i < 8; i++ {
		cl = append(cl, newClient("127.0.0.1", 0, r))
	}
	for i, j := range jobs {
		for k := 0; k < j.sources; k++ {
			wg.Add(1)
			sem <- true
			go func(j *job, c *Client) {
				defer wg.Done()
				defer func() { <-sem }()
				t := c.Tid()
				if v := c.Ask(p.Addr, t, announce(t, c.Id, j.hash, srv.Port(), nil), 20*time.Second); v == nil && !p.exited() {
					R := h.R
					R.Unclear("an announcement got no reply")
				}
			}(j, cl[(i+k)%len(cl)])
		}
	}
	wg.Wait()
	for _, c := range cl {
		c.S.Close()
	}
}

// multi serves every connection for the hash afresh.
func multi(r *rand.Rand, meta []byte) peersim.Script {
	seed := r.Int63()
	var mu sync.Mutex
	n := int64(0)
	return func(c *peersim.Conn) {
		mu.Lock()
		n++
		s := seed + n
		mu.Unlock()
		peersim.RandomCoop(rand.New(rand.NewSource(s)), meta).Play(s)(c)
	}
}

func makeJobs(r *rand.Rand, n, max int) (jobs []*job) {
	for i := 0; i < n; i++ {
		size := 1 + r.Intn(3000)
		switch r.Intn(4) {
		case 0:
			size = 1 + r.Intn(60)
		case 1:
			size = 1 + r.Intn(max)
		}
		j := &job{meta: h.Bytes(r, size), sources: 1, good: true, kind: "good"}
		j.hash = peersim.Hash(j.meta)
		if r.Intn(3) == 0 {
			j.sources = 2 + r.Intn(6)
			j.kind = "several peers"
		}
		if r.Intn(5) == 0 {
			j.good = false
			j.kind = []string{"lying", "silent", "cut off", "truncated"}[r.Intn(4)]
		}
		if n >= 100 && i%50 == 49 {
			// a torrent of very many files
			j.meta, j.sources, j.good, j.kind = h.Bytes(r, 1<<20+r.Intn(14<<20)), 1, false, "very large"
			j.hash = peersim.Hash(j.meta)
			jobs = append(jobs, j)
			continue
		}
		if r.Intn(12) == 0 {
			// hashes with leading zero digits or all hex letters happen too; this
			// one starts with a zero byte
			for k := 0; k < 4000; k++ {
				binary.BigEndian.PutUint32(pad(j), uint32(k))
				if j.hash = peersim.Hash(j.meta); j.hash[0] < 16 {
					break
				}
			}
		}
		jobs = append(jobs, j)
	}
	return
}

func pad(j *job) []byte {
	if len(j.meta) < 4 {
		j.meta = append(j.meta, 0, 0, 0, 0)
	}
	return j.meta[:4]
}

func script(r *rand.Rand, j *job) peersim.Script {
	if j.good {
		return multi(r, j.meta)
	}
	seed := r.Int63()
	bad := append([]byte(nil), j.meta...)
	switch j.kind {
	case "very large":
		// served as fast as it goes; success is not demanded
		return func(c *peersim.Conn) {
			c.Write(append(peersim.GoodHs(c), peersim.ExtHs(ref.I(1), ref.I(int64(len(j.meta))))...))
			c.Next(2 * time.Second)
			for i := 0; i < peersim.Pieces(len(j.meta)); i++ {
				if _, err := c.Write(peersim.Data(ref.I(int64(i)), ref.I(1), ref.I(int64(len(j.meta))), peersim.PieceOf(j.meta, i))); err != nil {
					return
				}
			}
			c.Gone(20 * time.Second)
		}
	case "lying":
		bad[r.Intn(len(bad))] ^= 1
	case "silent":
		return func(c *peersim.Conn) { c.Gone(20 * time.Second) }
	case "cut off":
		return func(c *peersim.Conn) {
			c.Write(peersim.Handshake(c.Hash, "PEERPEERPEERPEERPEER", [8]byte{5: 0x10}))
			c.Next(2 * time.Second)
			c.Write(peersim.Ext(0, ref.Encode(ref.D(ref.E("m", ref.D(ref.E("ut_metadata", ref.I(1)))), ref.E("metadata_size", ref.I(int64(len(j.meta))))))))
			c.Next(2 * time.Second)
		}
	case "truncated":
		bad = bad[:len(bad)-1]
		if len(bad) == 0 {
			bad = []byte{j.meta[0] ^ 1}
		}
	}
	return peersim.RandomCoop(rand.New(rand.NewSource(seed)), bad).Play(seed)
}

func f01run(round int) {
	R := h.R
	r := h.Rand("f01", round)
	dir := newDir()
	tdir := filepath.Join(dir, "torrent")
	var w *dirWatch
	if round%3 != 1 {
		os.Mkdir(tdir, 0755)
		w = watchDir(tdir)
	}
	p := startIn(dir, Conf{Fetchers: []int{30, 100, 10}[round%3], Level: []string{"Error", "Info"}[round%2]})
	srv := peerAt("127.0.0.1", 0)
	defer srv.Close()
	jobs := makeJobs(r, h.N(150, 400), 200000)
	for _, j := range jobs {
		srv.Plan(j.hash, script(r, j))
	}
	halt := make(chan struct{})
	var poll sync.WaitGroup
	poll.Add(1)
	go func() {
		defer poll.Done()
		for {
			select {
			case <-halt:
				return
			default:
			}
			R.Count("files_read_while_running", int64(checkDir(tdir, "while running")))
			if w != nil {
				w.drain()
			}
			time.Sleep(time.Millisecond)
		}
	}()
	announceAll(p, jobs, srv, false)
	stored := func(j *job) bool {
		b, err := os.ReadFile(filepath.Join(tdir, fmt.Sprintf("%x.torrent", j.hash)))
		return err == nil && bytes.Equal(b, j.meta)
	}
	// every connection has come and gone
	h.Wait(60*time.Second, func() bool {
		if p.exited() {
			return true
		}
		for _, j := range jobs {
			l := srv.Logs(j.hash)
			if len(l) < j.sources {
				return false
			}
			for _, lg := range l {
				if !lg.Done() {
					return false
				}
			}
		}
		return true
	})
	okAll := h.Wait(10*time.Second, func() bool {
		for _, j := range jobs {
			if j.good && !stored(j) {
				return false
			}
		}
		return true
	})
	time.Sleep(100 * time.Millisecond)
	close(halt)
	poll.Wait()
	if !p.Alive("storing torrents") {
		return
	}
	if !okAll {
		for _, j := range jobs {
			if j.good && !stored(j) {
				// was the data really handed over in time?
				quick := false
				for _, lg := range srv.Logs(j.hash) {
					if d := lg.Delivered(); d > 0 && d < 400*time.Millisecond {
						quick = true
					}
				}
				if quick && again(p, srv, j, stored) {
					R.Violate("not-stored", fmt.Sprintf("the metadata %x (%d bytes, %d peers) was served but is not stored", j.hash, len(j.meta), j.sources), nil)
					break
				}
				R.Unclear("a fetch of %d bytes did not succeed", len(j.meta))
			}
		}
	}
	for _, j := range jobs {
		R.Eval(fmt.Sprintf("%s|%d|%d|%d", j.kind, peersim.Pieces(len(j.meta)), j.sources, round%3))
		if j.kind == "very large" {
			R.Count("very_large_files_announced", 1)
			if stored(j) {
				R.Count("very_large_files_compared", 1)
			}
		} else if j.good {
			R.Count("files_compared", 1)
		} else {
			R.Count("failed_fetches", 1)
		}
	}
	R.Count("files_final", int64(checkDir(tdir, "after all fetches")))
	es, _ := os.ReadDir(tdir)
	good := map[string]bool{}
	for _, j := range jobs {
		if j.good || j.kind == "very large" {
			good[fmt.Sprintf("%x.torrent", j.hash)] = true
		}
	}
	for _, e := range es {
		if !good[e.Name()] {
			R.Violate("left-over", fmt.Sprintf("a file %q remains that belongs to no successful fetch", e.Name()), nil)
		}
	}
	if w != nil {
		w.drain()
		w.mu.Lock()
		for k, n := range w.seen {
			R.Count("kernel_events_"+strings.ReplaceAll(k, " ", "_"), int64(n))
		}
		if len(w.bad) > 0 {
			R.Violate("written-in-place", fmt.Sprintf("%s was written while visible under its final name", w.bad[0]), nil)
		}
		w.mu.Unlock()
		w.Close()
	}
	p.Kill()
}

// again announces the job alone; true when it fails three times although the
// peer was quick.
func again(p *Proc, srv *peersim.Server, j *job, stored func(*job) bool) bool {
	for i := 0; i < 3; i++ {
		srv.Take(j.hash)
		srv.Plan(j.hash, multi(h.Rand("again", i, j.hash), j.meta))
		announceAll(p, []*job{{meta: j.meta, hash: j.hash, sources: 1}}, srv, false)
		if h.Wait(5*time.Second, func() bool { return stored(j) || p.exited() }) {
			return false
		}
		for _, lg := range srv.Logs(j.hash) {
			if d := lg.Delivered(); d == 0 || d > 400*time.Millisecond {
				return false
			}
		}
	}
	return true
}

func f01kill(round int) {
	R := h.R
	r := h.Rand("kill", round)
	dir := newDir()
	tdir := filepath.Join(dir, "torrent")
	for life := 0; life < 3; life++ {
		p := startIn(dir, Conf{Fetchers: 60})
		srv := peerAt("127.0.0.1", 0)
		var jobs []*job
		for i := 0; i < 24; i++ {
			j := &job{meta: h.Bytes(r, 1+r.Intn(1<<20)), sources: 1 + r.Intn(3), good: true, kind: "good"}
			j.hash = peersim.Hash(j.meta)
			jobs = append(jobs, j)
			srv.Plan(j.hash, multi(r, j.meta))
		}
		delay := time.Duration(5+r.Intn(120)) * time.Millisecond
		go func() {
			time.Sleep(delay)
			p.Kill()
		}()
		announceAllQuick(p, jobs, srv)
		<-p.done
		n := checkDir(tdir, fmt.Sprintf("after kill -9 %v into the fetches", delay))
		R.Count("kills", 1)
		R.Count("files_after_kill", int64(n))
		R.Eval(fmt.Sprintf("kill|%d|%d", delay/(10*time.Millisecond), n))
		srv.Close()
	}
}

func announceAllQuick(p *Proc, jobs []*job, srv *peersim.Server) {
	c := newClient("127.0.0.1", 0, h.Rand("quick"))
	defer c.S.Close()
	for _, j := range jobs {
		for k := 0; k < j.sources; k++ {
			c.S.Send(announce(c.Tid(), c.Id, j.hash, srv.Port(), nil), p.Addr)
		}
	}
	<-p.done
}

// ---- X01

type tfile struct {
	name string
	data []byte
	ok   bool   // a metadata dictionary
	line string // what is printed for it (the first two columns depend on mode)
	what string
	cols [3]string // name, length, piece length
}

func x01file(r *rand.Rand) tfile {
	f := tfile{ok: true, cols: [3]string{"name err", "0", "0"}, what: "good"}
	var e []ref.Entry
	text := func(n int) string {
		b := h.Bytes(r, n)
		for i := range b {
			b[i] = "abcdefghijklmnop qrstuvwxyz0123456789._-%|d\xc3\xa9\xff\x01"[int(b[i])%47]
		}
		return string(b)
	}
	odd := func() *ref.Val {
		switch r.Intn(4) {
		case 0:
			return ref.L(ref.S("x"))
		case 1:
			return ref.D(ref.E("name", ref.S("inner")), ref.E("length", ref.I(77)))
		case 2:
			return nil
		}
		return ref.L()
	}
	w := ""
	switch r.Intn(5) {
	case 0:
		if v := odd(); v != nil {
			e = append(e, ref.E("name", v))
			w += " odd name"
		} else {
			w += " no name"
		}
	case 1:
		e = append(e, ref.E("name", ref.I(5)))
		w += " number as name"
	default:
		n := text(r.Intn(40))
		if r.Intn(8) == 0 {
			n = []string{"%d", "%s%s%n", "100%", "||", "", "e", "name err"}[r.Intn(7)]
		}
		e = append(e, ref.E("name", ref.S(n)))
		f.cols[0] = n
	}
	for k, key := range []string{"length", "piece length"} {
		switch r.Intn(6) {
		case 0:
			if v := odd(); v != nil {
				e = append(e, ref.E(key, v))
				w += " odd " + key
			} else {
				w += " no " + key
			}
		case 1:
			e = append(e, ref.E(key, ref.S("123")))
			w += " text as " + key
		default:
			n := int64(r.Intn(1 << 20))
			switch r.Intn(6) {
			case 0:
				n = 1<<63 - 1
			case 1:
				n = -1 << 63
			case 2:
				n = 0
			case 3:
				n = -5
			}
			e = append(e, ref.E(key, ref.I(n)))
			f.cols[1+k] = fmt.Sprint(n)
		}
	}
	if r.Intn(60) == 0 {
		// a torrent of a very large file
		e = append(e, ref.E("pieces", ref.S(string(h.Bytes(r, 20*(20000+r.Intn(200000)*(1+2*r.Intn(2))))))))
		w += " large"
	} else if r.Intn(3) == 0 {
		e = append(e, ref.E("files", ref.L(ref.D(ref.E("length", ref.I(3)), ref.E("path", ref.L(ref.S("a"), ref.S("b")))))))
	}
	if r.Intn(2) == 0 && !strings.HasSuffix(w, "large") {
		e = append(e, ref.E("pieces", ref.S(string(h.Bytes(r, 20*r.Intn(400))))))
	}
	if r.Intn(12) == 0 {
		e, w = nil, " empty dictionary"
		f.cols = [3]string{"name err", "0", "0"}
	}
	f.data = ref.Encode(ref.D(e...))
	f.what += w
	return f
}

// damage makes the file something that is not a metadata dictionary.
func damage(r *rand.Rand, f tfile) tfile {
	f.ok = false
	b := f.data
	switch r.Intn(9) {
	case 0:
		k := r.Intn(len(b))
		f.data, f.what = append([]byte{}, b[:k]...), "cut short"
	case 1:
		f.data, f.what = nil, "empty"
	case 2:
		f.data, f.what = h.Bytes(r, 1+r.Intn(300)), "random"
		if f.data[0] == 'd' {
			f.data[0] = 'x'
		}
	case 3:
		f.data, f.what = append(append([]byte{}, b...), "trailing"...), "trailing bytes"
	case 4:
		f.data, f.what = []byte("l4:spame"), "a list"
	case 5:
		f.data, f.what = []byte("i42e"), "a number"
	case 6:
		f.data, f.what = []byte("4:spam"), "a string"
	case 7:
		f.data, f.what = bytes.Repeat([]byte("d1:a"), 1000+r.Intn(300000)), "deep nesting"
	default:
		f.data, f.what = []byte("d4:name99999999999999999999:xe"), "huge length"
	}
	return f
}

func (f tfile) want(path string) string {
	return f.cols[0] + "||" + path + "||" + f.cols[1] + "||" + f.cols[2]
}

// results picks the result lines out of the program's output.
func results(out string) []string {
	var l []string
	for _, s := range strings.Split(out, "\n") {
		s = strings.TrimSuffix(s, "\r")
		if strings.Contains(s, "||") {
			l = append(l, s)
		}
	}
	return l
}

func runTool(dir string, args ...string) (string, string, int) {
	c := exec.Command(crawlerBin(), args...)
	c.Dir = dir
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		h.Fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Process.Kill()
		<-done
		h.R.Violate("hang", "the torrent command did not end within a minute", args)
	}
	return so.String(), se.String(), c.ProcessState.ExitCode()
}

func x01() {
	R := h.R
	R.Rule = "directories and single files, with absent and differently typed fields, damage of many kinds, other files and directories among them; distinct = file kind x mode; oracle: the expected line per file computed from what was written, compared as multisets of result lines; failures looked for on stderr and in the exit status"
	stop := h.Guard("hang", "torrent tool", time.Duration(h.N(240, 3000))*time.Second)
	defer stop()
	base := newDir()
	os.WriteFile(filepath.Join(base, "conf", "config.json"), Conf{Port: 0}.json(), 0644)
	for n := 0; n < h.N(400, 6000) && R.Bad() < 3; n++ {
		x01dir(base, n)
	}
	for n := 0; n < h.N(800, 12000) && R.Bad() < 3; n++ {
		r := h.Rand("x01one", n)
		f := x01file(r)
		if n%3 == 2 {
			f = damage(r, f)
		}
		name := fmt.Sprintf("single%d%s", n, []string{".torrent", "", ".dat"}[r.Intn(3)])
		path := filepath.Join(base, name)
		os.WriteFile(path, f.data, 0644)
		arg := name
		if r.Intn(2) == 0 {
			arg = path
		}
		out, errOut, code := runTool(base, "torrent", arg)
		l := results(out)
		w := map[string]string{"file": h.Hex(f.data), "stdout": trim(out), "stderr": trim(errOut), "exit": fmt.Sprint(code)}
		R.Eval("single|" + f.what)
		if f.ok {
			if len(l) != 1 || l[0] != f.want(arg) {
				R.Violate("single-line", fmt.Sprintf("for one good file (%s) the tool printed %q, expected %q", f.what, l, f.want(arg)), w)
			}
			if code != 0 {
				R.Violate("single-status", fmt.Sprintf("one good file (%s): exit status %d", f.what, code), w)
			}
		} else {
			if len(l) != 0 {
				R.Violate("damaged-success", fmt.Sprintf("a damaged file (%s) was reported as %q", f.what, l), w)
			}
			if code == 0 && strings.TrimSpace(errOut) == "" {
				R.Violate("damaged-silent", fmt.Sprintf("a damaged file (%s) was not reported as a failure", f.what), w)
			}
		}
		os.Remove(path)
	}
	out, errOut, code := runTool(base, "torrent", "does-not-exist.torrent")
	if l := results(out); len(l) > 0 || code == 0 && strings.TrimSpace(errOut) == "" {
		R.Violate("missing-file", fmt.Sprintf("a missing file: exit status %d, lines %q", code, l), nil)
	}
}

func x01dir(base string, n int) {
	R := h.R
	r := h.Rand("x01dir", n)
	dir := filepath.Join(base, fmt.Sprintf("d%d", n))
	os.Mkdir(dir, 0755)
	defer os.RemoveAll(dir)
	var want []string
	var badNames []string
	k := r.Intn(40)
	if n%16 >= 14 {
		k = 40 + r.Intn(300)
	}
	switch n {
	case 0:
		k = 0
	case 2, 3:
		// more entries than a directory is read at once
		k = 2600
	}
	kinds := map[string]bool{}
	for i := 0; i < k; i++ {
		f := x01file(r)
		name := fmt.Sprintf("%x.torrent", h.Bytes(r, 20))
		switch r.Intn(8) {
		case 0:
			name = fmt.Sprintf("f %d.torrent", i)
		case 1:
			name = fmt.Sprintf(".h%d.torrent", i)
		case 2:
			name = fmt.Sprintf("%d.tmp.torrent", i)
		case 3:
			name = fmt.Sprintf("%d 100%%d %%s%%!%c.torrent", i, " -+#$é"[r.Intn(5)])
		case 4:
			if i == 4 {
				name = ".torrent"
			}
		}
		listed := true
		switch r.Intn(10) {
		case 0:
			name = fmt.Sprintf("other%d.%s", i, []string{"txt", "torrent.tmp", "torrent1", "Torrent_", "torren", "TORRENT", "Torrent", "torrent~", "torrent "}[r.Intn(9)])
			listed = false
		case 1:
			name = fmt.Sprintf("torrent%d", i)
			listed = false
		case 2:
			os.Mkdir(filepath.Join(dir, fmt.Sprintf("dir%d.torrent", i)), 0755)
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("dir%d.torrent", i), "inner.torrent"), f.data, 0644)
			continue
		}
		if n%2 == 1 && r.Intn(6) == 0 {
			f = damage(r, f)
			if listed {
				badNames = append(badNames, name)
			}
		}
		os.WriteFile(filepath.Join(dir, name), f.data, 0644)
		if listed {
			kinds["dir|"+f.what] = true
			if f.ok {
				want = append(want, f.want(name))
			}
		}
	}
	arg := dir
	switch r.Intn(3) {
	case 0:
		arg = filepath.Base(dir)
	case 1:
		arg = filepath.Base(dir) + "/"
	}
	out, errOut, code := runTool(base, "torrent", arg)
	got := results(out)
	sort.Strings(got)
	sort.Strings(want)
	w := map[string]interface{}{"want": want, "got": got, "stderr": trim(errOut), "exit": code, "damaged": badNames}
	for k := range kinds {
		R.Eval(k)
	}
	if len(kinds) == 0 {
		R.Eval("dir|empty")
	}
	R.Count("result_lines_compared", int64(len(want)))
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		R.Violate("directory-lines", fmt.Sprintf("a directory with %d good and %d damaged torrent files: %d result lines, expected %d; first difference %s", len(want), len(badNames), len(got), len(want), firstDiff(got, want)), w)
	}
	if len(badNames) > 0 {
		R.Count("damaged_files", int64(len(badNames)))
		if code == 0 && strings.TrimSpace(errOut) == "" {
			R.Violate("damaged-silent", fmt.Sprintf("%d damaged files were not reported as failures", len(badNames)), w)
		}
	} else if code != 0 {
		R.Violate("directory-status", fmt.Sprintf("only good files, exit status %d", code), w)
	}
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = fmt.Sprintf("%q", a[i])
		}
		if i < len(b) {
			y = fmt.Sprintf("%q", b[i])
		}
		if x != y {
			return "printed " + x + ", expected " + y
		}
	}
	return "none"
}
