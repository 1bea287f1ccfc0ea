// Package peersim simulates BitTorrent peers: cooperative ones that vary
// everything the protocol leaves open, and hostile ones. Every byte the
// fetcher sends is logged and judged by the wire checker.
package peersim

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"

	"verifharness/ref"
)

const (
	Protocol  = "BitTorrent protocol"
	PieceSize = 16384
)

func Hash(b []byte) string { s := sha1.Sum(b); return string(s[:]) }

// Msg is one length-prefixed message.
type Msg struct {
	Keep bool
	Type byte
	Body []byte // after the type byte
}

// Split parses what followed the handshake into complete messages and a rest.
func Split(b []byte) (ms []Msg, rest []byte) {
	for len(b) >= 4 {
		n := binary.BigEndian.Uint32(b)
		if n == 0 {
			ms = append(ms, Msg{Keep: true})
			b = b[4:]
			continue
		}
		if uint64(len(b)-4) < uint64(n) {
			break
		}
		ms = append(ms, Msg{Type: b[4], Body: b[5 : 4+n]})
		b = b[4+n:]
	}
	return ms, b
}

func Frame(typ byte, body []byte) []byte {
	b := make([]byte, 5, 5+len(body))
	binary.BigEndian.PutUint32(b, uint32(1+len(body)))
	b[4] = typ
	return append(b, body...)
}

func Ext(id byte, body []byte) []byte {
	return Frame(20, append([]byte{id}, body...))
}

func Handshake(hash, peer string, reserved [8]byte) []byte {
	b := append([]byte{19}, Protocol...)
	b = append(b, reserved[:]...)
	b = append(b, hash...)
	return append(b, peer...)
}

// Piece is a data message; id is what the receiver chose.
func Piece(id byte, piece, total int, data []byte) []byte {
	d := ref.Encode(ref.D(ref.E("msg_type", ref.I(1)), ref.E("piece", ref.I(int64(piece))), ref.E("total_size", ref.I(int64(total)))))
	return Ext(id, append(d, data...))
}

func PieceOf(meta []byte, i int) []byte {
	a, e := i*PieceSize, (i+1)*PieceSize
	if e > len(meta) {
		e = len(meta)
	}
	return meta[a:e]
}

func Pieces(size int) int { return (size + PieceSize - 1) / PieceSize }

// Log is what one connection of the fetcher showed.
type Log struct {
	mu       sync.Mutex
	At       time.Time
	From     string
	recv     []byte
	over     bool // more than the log keeps
	ended    bool
	endAt    time.Time
	endErr   string
	finished time.Duration // all pieces written, since the connection was accepted
	done     bool          // the script has ended
}

const keep = 8 << 20

func (l *Log) add(b []byte) {
	l.mu.Lock()
	if len(l.recv)+len(b) > keep {
		l.over = true
	} else {
		l.recv = append(l.recv, b...)
	}
	l.mu.Unlock()
}

func (l *Log) Recv() ([]byte, bool) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.recv[:len(l.recv):len(l.recv)], l.over
}

func (l *Log) Ended() (bool, string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.ended, l.endErr
}

func (l *Log) Delivered() time.Duration {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.finished
}

func (l *Log) Done() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.done
}

// Conn is the peer's side of a connection.
type Conn struct {
	net.Conn
	Log   *Log
	Hash  string // asked for
	Who   string // the peer id the fetcher gave itself
	muted chan struct{}
	wake  chan struct{}
	off   int // bytes of the log already taken as messages
	stop  chan struct{}
}

// Script plays the peer after the fetcher's handshake has arrived.
type Script func(c *Conn)

type Server struct {
	L       net.Listener
	mu      sync.Mutex
	scripts map[string]Script
	logs    map[string][]*Log
	other   []*Log // connections that never sent a handshake
	Default Script
	wg      sync.WaitGroup
	open    map[net.Conn]bool
	closed  bool
	stop    chan struct{}
}

func Listen(addr string) (*Server, error) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	s := &Server{L: l, scripts: map[string]Script{}, logs: map[string][]*Log{}, open: map[net.Conn]bool{}, stop: make(chan struct{})}
	s.wg.Add(1)
	go s.accept()
	return s, nil
}

func (s *Server) Addr() string { return s.L.Addr().String() }
func (s *Server) Port() int    { return s.L.Addr().(*net.TCPAddr).Port }

// Plan decides what the peer does for the torrent.
func (s *Server) Plan(hash string, sc Script) {
	s.mu.Lock()
	s.scripts[hash] = sc
	s.mu.Unlock()
}

// Take returns and forgets the connections that asked for the torrent.
func (s *Server) Take(hash string) []*Log {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.logs[hash]
	delete(s.logs, hash)
	delete(s.scripts, hash)
	return l
}

func (s *Server) Logs(hash string) []*Log {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Log(nil), s.logs[hash]...)
}

// All lists every connection, by the torrent asked for.
func (s *Server) All() (map[string][]*Log, []*Log) {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string][]*Log{}
	for k, v := range s.logs {
		m[k] = append([]*Log(nil), v...)
	}
	return m, append([]*Log(nil), s.other...)
}

func (s *Server) accept() {
	defer s.wg.Done()
	for {
		c, err := s.L.Accept()
		if err != nil {
			s.mu.Lock()
			closed := s.closed
			s.mu.Unlock()
			if closed {
				return
			}
			time.Sleep(time.Millisecond)
			continue
		}
		s.mu.Lock()
		if s.closed {
			s.mu.Unlock()
			c.Close()
			continue
		}
		s.open[c] = true
		s.wg.Add(1)
		s.mu.Unlock()
		go s.serve(c)
	}
}

func (s *Server) serve(nc net.Conn) {
	defer s.wg.Done()
	lg := &Log{At: time.Now(), From: nc.RemoteAddr().String()}
	c := &Conn{Conn: nc, Log: lg, muted: make(chan struct{}), wake: make(chan struct{}, 1), stop: s.stop}
	defer func() {
		nc.Close()
		s.mu.Lock()
		delete(s.open, nc)
		s.mu.Unlock()
		lg.mu.Lock()
		lg.done = true
		lg.mu.Unlock()
	}()
	hs := make([]byte, 68)
	nc.SetReadDeadline(time.Now().Add(30 * time.Second))
	n, err := io.ReadFull(nc, hs)
	lg.add(hs[:n])
	if err != nil {
		lg.mu.Lock()
		lg.ended, lg.endErr, lg.endAt = true, err.Error(), time.Now()
		lg.mu.Unlock()
		s.mu.Lock()
		s.other = append(s.other, lg)
		s.mu.Unlock()
		return
	}
	nc.SetReadDeadline(time.Time{})
	c.Hash, c.Who = string(hs[28:48]), string(hs[48:68])
	c.off = 68
	s.mu.Lock()
	sc := s.scripts[c.Hash]
	if sc == nil {
		sc = s.Default
	}
	s.logs[c.Hash] = append(s.logs[c.Hash], lg)
	s.mu.Unlock()
	pumped := make(chan struct{})
	go func() {
		defer close(pumped)
		c.pump()
	}()
	if sc != nil {
		sc(c)
	}
	nc.Close()
	<-pumped
}

// pump reads until the fetcher is gone, or the script told it to stop reading.
func (c *Conn) pump() {
	buf := make([]byte, 16384)
	for {
		select {
		case <-c.muted:
			return
		default:
		}
		n, err := c.Conn.Read(buf)
		if n > 0 {
			c.Log.add(buf[:n])
		}
		if err != nil {
			c.Log.mu.Lock()
			c.Log.ended, c.Log.endErr, c.Log.endAt = true, err.Error(), time.Now()
			c.Log.mu.Unlock()
		}
		select {
		case c.wake <- struct{}{}:
		default:
		}
		if err != nil {
			return
		}
	}
}

// Mute stops reading (after at most one more read).
func (c *Conn) Mute() { close(c.muted) }

// Next waits for the next complete message of the fetcher.
func (c *Conn) Next(limit time.Duration) (Msg, bool) {
	t := time.NewTimer(limit)
	defer t.Stop()
	for {
		b, _ := c.Log.Recv()
		ms, _ := Split(b[c.off:])
		if len(ms) > 0 {
			m := ms[0]
			if m.Keep {
				c.off += 4
			} else {
				c.off += 5 + len(m.Body)
			}
			return m, true
		}
		if e, _ := c.Log.Ended(); e {
			return Msg{}, false
		}
		select {
		case <-c.wake:
		case <-t.C:
			return Msg{}, false
		case <-c.stop:
			return Msg{}, false
		}
	}
}

// Gone waits until the fetcher has closed the connection.
func (c *Conn) Gone(limit time.Duration) bool {
	t := time.NewTimer(limit)
	defer t.Stop()
	for {
		if e, _ := c.Log.Ended(); e {
			return true
		}
		select {
		case <-c.wake:
		case <-t.C:
			return false
		case <-c.stop:
			return false
		}
	}
}

// Sleep is interruptible by the end of the simulation.
func (c *Conn) Sleep(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return true
	case <-c.stop:
		return false
	}
}

// Close ends every connection; the logs stay.
func (s *Server) Close() {
	s.mu.Lock()
	if s.closed {
		s.mu.Unlock()
		return
	}
	s.closed = true
	close(s.stop)
	for c := range s.open {
		c.Close()
	}
	s.mu.Unlock()
	s.L.Close()
	s.wg.Wait()
}

// ---- cooperative peers

// How TCP carries the bytes.
type Seg struct {
	Kind int // 0 each message by itself, 1 all joined, 2 random cuts, 3 tiny first bytes, 4 random cuts with pauses
	Rest time.Duration
}

type Coop struct {
	Meta    []byte
	Ut      int // the peer's own extension id for metadata messages
	Order   int // 0 as requested, 1 collected then in order, 2 reversed, 3 random
	Noise   int // 0 none .. 3 much
	Seg     Seg
	Early   bool // extension handshake joined to the handshake
	Extras  bool // other entries in the extension handshake
	Repeat  bool // the extension handshake is repeated later, as BEP 10 allows
	Delay   time.Duration
	Report  string // label
	PeerBit byte
}

func (p *Coop) String() string {
	return fmt.Sprintf("size=%d ut=%d order=%d noise=%d seg=%d early=%v extras=%v repeat=%v delay=%v", len(p.Meta), p.Ut, p.Order, p.Noise, p.Seg.Kind, p.Early, p.Extras, p.Repeat, p.Delay)
}

// RandomCoop draws everything a cooperative peer may choose.
func RandomCoop(r *rand.Rand, meta []byte) *Coop {
	p := &Coop{Meta: meta, Order: r.Intn(4), Noise: r.Intn(4), Early: r.Intn(3) == 0, Extras: r.Intn(2) == 0, Repeat: r.Intn(4) == 0}
	switch r.Intn(5) {
	case 0:
		p.Ut = 1
	case 1:
		p.Ut = 2 + r.Intn(3)
	case 2:
		p.Ut = 255
	default:
		p.Ut = 1 + r.Intn(255)
	}
	p.Seg.Kind = r.Intn(5)
	if len(meta) > 1<<20 && p.Seg.Kind == 3 {
		p.Seg.Kind = 2
	}
	if r.Intn(6) == 0 {
		p.Delay = time.Duration(r.Intn(60)) * time.Millisecond
	}
	p.PeerBit = []byte{0, 1, 4, 5}[r.Intn(4)]
	return p
}

func (p *Coop) extHandshake(r *rand.Rand, again bool) []byte {
	m := ref.D(ref.E("ut_metadata", ref.I(int64(p.Ut))))
	if p.Extras {
		other := func() int64 {
			if r.Intn(4) == 0 {
				return 0 // not, or no longer, in use
			}
			for {
				if x := 1 + r.Intn(250); x != p.Ut {
					return int64(x)
				}
			}
		}
		m = ref.D(ref.E("lt_donthave", ref.I(other())), ref.E("ut_metadata", ref.I(int64(p.Ut))), ref.E("ut_pex", ref.I(other())))
		if r.Intn(2) == 0 {
			m = ref.D(ref.E("LT_metadata", ref.I(other())), ref.E("lt_donthave", ref.I(other())), ref.E("share_mode", ref.I(other())), ref.E("upload_only", ref.I(other())),
				ref.E("ut_comment", ref.I(other())), ref.E("ut_holepunch", ref.I(other())), ref.E("ut_metadata", ref.I(int64(p.Ut))), ref.E("ut_pex", ref.I(other())), ref.E("ut_recommend", ref.I(other())))
		}
	}
	d := ref.D(ref.E("m", m), ref.E("metadata_size", ref.I(int64(len(p.Meta)))))
	if again && r.Intn(3) > 0 {
		// BEP 10: later handshakes may tell only what changed
		return Ext(0, ref.Encode([]*ref.Val{
			ref.D(ref.E("m", ref.D(ref.E("ut_pex", ref.I(0))))),
			ref.D(ref.E("m", ref.D()), ref.E("upload_only", ref.I(1))),
			ref.D(ref.E("m", ref.D(ref.E("lt_donthave", ref.I(7)))), ref.E("reqq", ref.I(250))),
			ref.D(ref.E("m", ref.D(ref.E("ut_metadata", ref.I(int64(p.Ut)))))),
			ref.D(ref.E("upload_only", ref.I(1))),
			ref.D(),
		}[r.Intn(6)]))
	}
	if p.Extras {
		// any selection of what BEP 10 and its extensions name; keys in order
		var e []ref.Entry
		for _, x := range []ref.Entry{
			ref.E("complete_ago", ref.I(int64(r.Intn(99999)))), ref.E("e", ref.I(int64(r.Intn(2)))), ref.E("ipv4", ref.S("\x7f\x00\x00\x01")),
			ref.E("ipv6", ref.S(strings.Repeat("\x00", 15)+"\x01")),
			ref.E("m", m), ref.E("metadata_size", ref.I(int64(len(p.Meta)))), ref.E("p", ref.I(int64(r.Intn(65536)))),
			ref.E("reqq", ref.I(int64(1+r.Intn(600)))), ref.E("upload_only", ref.I(1)), ref.E("v", ref.S([]string{"peer simulator 1.0", "", "\xce\xbcTorrent 3.5.5\n"}[r.Intn(3)])), ref.E("yourip", ref.S("\x7f\x00\x00\x01")),
		} {
			if x.K == "m" || x.K == "metadata_size" || r.Intn(2) == 0 {
				e = append(e, x)
			}
		}
		d = ref.D(e...)
	}
	return Ext(0, ref.Encode(d))
}

// noise is what a peer may say besides: keep-alives and BEP 3 messages.
func (p *Coop) noise(r *rand.Rand) [][]byte {
	var out [][]byte
	n := 0
	switch p.Noise {
	case 1:
		n = r.Intn(2)
	case 2:
		n = r.Intn(4)
	case 3:
		n = r.Intn(9)
		if r.Intn(12) == 0 {
			n = 10 + r.Intn(60)
		}
	}
	for i := 0; i < n; i++ {
		b4 := make([]byte, 4)
		r.Read(b4)
		switch r.Intn(10) {
		case 0, 1:
			out = append(out, []byte{0, 0, 0, 0})
		case 9:
			// BEP 6
			x := make([]byte, 12)
			r.Read(x)
			t := r.Intn(5)
			out = append(out, Frame(byte(13+t), x[:[]int{4, 0, 0, 12, 4}[t]]))
		case 8:
			// as long as a message may be, or nearly
			out = append(out, Frame([]byte{5, 7}[r.Intn(2)], make([]byte, 32767-r.Intn(4)*r.Intn(2)*r.Intn(100))))
		case 2:
			out = append(out, Frame(byte(r.Intn(4)), nil))
		case 3:
			out = append(out, Frame(4, b4))
		case 4:
			x := make([]byte, r.Intn(3000))
			r.Read(x)
			out = append(out, Frame(5, x))
		case 5:
			out = append(out, Frame(9, b4[:2]))
		case 6:
			x := make([]byte, 12)
			r.Read(x)
			out = append(out, Frame(6, x))
		case 7:
			x := make([]byte, 8+r.Intn(16384))
			r.Read(x)
			out = append(out, Frame(7, x))
		}
	}
	return out
}

// write sends messages with the chosen segmentation.
func (p *Coop) write(c *Conn, r *rand.Rand, ms [][]byte) bool {
	if p.Seg.Kind == 0 {
		for _, m := range ms {
			if _, err := c.Write(m); err != nil {
				return false
			}
		}
		return true
	}
	b := bytes.Join(ms, nil)
	switch p.Seg.Kind {
	case 1:
		_, err := c.Write(b)
		return err == nil
	case 3:
		tiny := 40 + r.Intn(200)
		for i := 0; i < tiny && len(b) > 0; i++ {
			n := 1 + r.Intn(3)
			if n > len(b) {
				n = len(b)
			}
			if _, err := c.Write(b[:n]); err != nil {
				return false
			}
			b = b[n:]
		}
	}
	step := len(b)/(1+r.Intn(30)) + 1
	for len(b) > 0 {
		n := 1 + r.Intn(step)
		if n > len(b) {
			n = len(b)
		}
		if _, err := c.Write(b[:n]); err != nil {
			return false
		}
		b = b[n:]
		if p.Seg.Kind == 4 && p.Seg.Rest < 120*time.Millisecond && r.Intn(2) == 0 {
			d := time.Duration(r.Intn(8)) * time.Millisecond
			p.Seg.Rest += d
			c.Sleep(d)
		}
	}
	return true
}

// request recognises a well-formed request for a piece in the peer's terms.
func (p *Coop) request(m Msg) (int, bool) {
	if m.Keep || m.Type != 20 || len(m.Body) < 2 || int(m.Body[0]) != p.Ut {
		return 0, false
	}
	v, _, st := ref.Parse(string(m.Body[1:]))
	if st != ref.OK || v == nil || v.Kind != ref.Dict {
		return 0, false
	}
	t, ok := v.Int("msg_type")
	i, ok2 := v.Int("piece")
	if !ok || !ok2 || t != 0 || i < 0 || i >= int64(Pieces(len(p.Meta))) {
		return 0, false
	}
	return int(i), true
}

// chatty is a piece whose header says more than it must.
func chatty(r *rand.Rand, id byte, i, total int, b []byte) []byte {
	e := []ref.Entry{ref.E("msg_type", ref.I(1)), ref.E("piece", ref.I(int64(i))), ref.E("total_size", ref.I(int64(total)))}
	switch r.Intn(4) {
	case 0:
		e = append([]ref.Entry{ref.E("a", ref.S("fee"))}, e...)
	case 1:
		e = append(e, ref.E("v", ref.L(ref.D())))
	case 2:
		e = append([]ref.Entry{ref.E("d", ref.D(ref.E("e", ref.I(7))))}, e...)
	default:
		e = append(e, ref.E("users", ref.I(int64(r.Intn(50)))), ref.E("x", ref.S("ee1:")))
	}
	return Ext(id, append(ref.Encode(ref.D(e...)), b...))
}

// Play follows the protocol; seed fixes every choice.
func (p *Coop) Play(seed int64) Script {
	return func(c *Conn) {
		r := rand.New(rand.NewSource(seed))
		q := *p
		p := &q
		var res [8]byte
		res[5] = 0x10
		res[7] = p.PeerBit
		id := make([]byte, 20)
		r.Read(id)
		if r.Intn(3) == 0 {
			// other capabilities, and the client software both may use
			res[r.Intn(8)] |= byte(r.Intn(256))
			if n := 8; len(c.Who) == 20 {
				copy(id[:n], c.Who)
			}
		}
		hs := Handshake(c.Hash, string(id), res)
		if p.Delay > 0 {
			c.Sleep(p.Delay)
		}
		theirs := byte(1) // until their extension handshake tells
		if p.Early {
			if !p.write(c, r, append([][]byte{hs, p.extHandshake(r, false)}, p.noise(r)...)) {
				return
			}
		} else if !p.write(c, r, [][]byte{hs}) {
			return
		}
		// their extension handshake
		for {
			m, ok := c.Next(20 * time.Second)
			if !ok {
				return
			}
			if !m.Keep && m.Type == 20 && len(m.Body) > 1 && m.Body[0] == 0 {
				if v, _, st := ref.Parse(string(m.Body[1:])); st == ref.OK && v.Get("m") != nil {
					if x, ok := v.Get("m").Int("ut_metadata"); ok && x > 0 && x < 256 {
						theirs = byte(x)
					}
				}
				break
			}
		}
		if !p.Early {
			out := p.noise(r)
			out = append(out, p.extHandshake(r, false))
			out = append(out, p.noise(r)...)
			if !p.write(c, r, out) {
				return
			}
		}
		n := Pieces(len(p.Meta))
		sent := make([]bool, n)
		left := n
		var queue []int
		for left > 0 {
			m, ok := c.Next(20 * time.Second)
			if !ok {
				return
			}
			i, ok := p.request(m)
			if !ok || sent[i] {
				continue
			}
			sent[i] = true
			left--
			queue = append(queue, i)
			if p.Order != 0 && left > 0 {
				continue
			}
			switch p.Order {
			case 2:
				for a, b := 0, len(queue)-1; a < b; a, b = a+1, b-1 {
					queue[a], queue[b] = queue[b], queue[a]
				}
			case 3:
				r.Shuffle(len(queue), func(a, b int) { queue[a], queue[b] = queue[b], queue[a] })
			}
			var out [][]byte
			for k, i := range queue {
				if p.Noise > 0 && (n < 40 || r.Intn(20) == 0) {
					out = append(out, p.noise(r)...)
				}
				if p.Repeat && k == len(queue)/2 && left == 0 {
					out = append(out, p.extHandshake(r, true))
				}
				x := Piece(theirs, i, len(p.Meta), PieceOf(p.Meta, i))
				if p.Extras && r.Intn(6) == 0 {
					x = chatty(r, theirs, i, len(p.Meta), PieceOf(p.Meta, i))
				}
				out = append(out, x)
			}
			queue = nil
			if !p.write(c, r, out) {
				return
			}
		}
		c.Log.mu.Lock()
		c.Log.finished = time.Since(c.Log.At)
		c.Log.mu.Unlock()
		c.Gone(20 * time.Second)
	}
}

// ---- the wire checker

// Check judges everything the fetcher sent on one connection. ut is the id the
// peer announced, size the metadata size it announced (-1 when it never got to
// announce); full demands that all pieces were requested.
func Check(sent []byte, hash, peerId string, ut, size int, full, ended bool) (bad string, requests int) {
	if len(sent) < 68 {
		return fmt.Sprintf("%d bytes instead of a handshake", len(sent)), 0
	}
	hs := sent[:68]
	if hs[0] != 19 || string(hs[1:20]) != Protocol {
		return fmt.Sprintf("the handshake names another protocol: %x", hs[:20]), 0
	}
	if hs[25]&0x10 == 0 {
		return fmt.Sprintf("the extension bit is not set: %x", hs[20:28]), 0
	}
	if string(hs[28:48]) != hash {
		return fmt.Sprintf("the handshake asks for %x, not %x", hs[28:48], hash), 0
	}
	if string(hs[48:68]) != peerId {
		return fmt.Sprintf("the handshake carries peer id %x, not %x", hs[48:68], peerId), 0
	}
	ms, rest := Split(sent[68:])
	if len(rest) > 0 && !ended {
		return fmt.Sprintf("trailing bytes %x", rest), 0
	}
	asked := map[int64]int{}
	for k, m := range ms {
		if m.Keep {
			return fmt.Sprintf("message %d is a keep-alive", k), requests
		}
		if m.Type != 20 || len(m.Body) < 1 {
			return fmt.Sprintf("message %d is not an extension message: type %d, %d bytes", k, m.Type, len(m.Body)), requests
		}
		v, n, st := ref.Parse(string(m.Body[1:]))
		if st != ref.OK || v.Kind != ref.Dict || n != len(m.Body)-1 {
			return fmt.Sprintf("message %d does not carry exactly a dictionary: %q", k, m.Body), requests
		}
		if k == 0 {
			if m.Body[0] != 0 {
				return fmt.Sprintf("the first message has extension id %d, not the extension handshake", m.Body[0]), requests
			}
			mm := v.Get("m")
			if mm == nil || mm.Kind != ref.Dict {
				return fmt.Sprintf("the extension handshake has no m: %q", m.Body), requests
			}
			if x, ok := mm.Int("ut_metadata"); !ok || x < 1 || x > 255 {
				return fmt.Sprintf("the extension handshake does not announce metadata exchange: %q", m.Body), requests
			}
			continue
		}
		if size < 0 {
			return fmt.Sprintf("message %d although the peer sent no acceptable extension handshake: %q", k, m.Body), requests
		}
		if int(m.Body[0]) != ut {
			return fmt.Sprintf("message %d has extension id %d, the peer's id for metadata is %d", k, m.Body[0], ut), requests
		}
		t, ok := v.Int("msg_type")
		i, ok2 := v.Int("piece")
		if !ok || !ok2 || t != 0 {
			return fmt.Sprintf("message %d is not a request for a piece: %q", k, m.Body), requests
		}
		if i < 0 || i >= int64(Pieces(size)) {
			return fmt.Sprintf("piece %d requested, there are %d", i, Pieces(size)), requests
		}
		asked[i]++
		requests++
		if asked[i] > 1 {
			return fmt.Sprintf("piece %d requested twice", i), requests
		}
	}
	if full {
		if len(ms) == 0 {
			return "no extension handshake", 0
		}
		if len(asked) != Pieces(size) {
			return fmt.Sprintf("%d of %d pieces requested", len(asked), Pieces(size)), requests
		}
	}
	return "", requests
}
