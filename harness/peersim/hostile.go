package peersim

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifharness/h"
	"verifharness/ref"
)

// HostilePeer is one kind of misbehaviour. ut and size are what the fetcher
// may have believed (size -1: nothing acceptable was announced).
type HostilePeer struct {
	Name   string
	Ut     int
	Size   int
	Heavy  bool // sends as fast as it can
	Script func(r *rand.Rand) Script
}

var OkReserved = [8]byte{0, 0, 0, 0, 0, 0x10, 0, 0}

func GoodHs(c *Conn) []byte {
	return Handshake(c.Hash, "PEERPEERPEERPEERPEER", OkReserved)
}

func ExtHs(ut, size *ref.Val) []byte {
	var e []ref.Entry
	if ut != nil {
		e = append(e, ref.E("m", ref.D(ref.E("ut_metadata", ut))))
	}
	if size != nil {
		e = append(e, ref.E("metadata_size", size))
	}
	return Ext(0, ref.Encode(ref.D(e...)))
}

func OkExt(size int) []byte { return ExtHs(ref.I(3), ref.I(int64(size))) }

func Data(piece *ref.Val, typ *ref.Val, total *ref.Val, b []byte) []byte {
	var e []ref.Entry
	if typ != nil {
		e = append(e, ref.E("msg_type", typ))
	}
	if piece != nil {
		e = append(e, ref.E("piece", piece))
	}
	if total != nil {
		e = append(e, ref.E("total_size", total))
	}
	return Ext(1, append(ref.Encode(ref.D(e...)), b...))
}

// MaxMeta is the largest metadata the fetcher accepts.
const MaxMeta = 16 << 20

const Patience = 40 * time.Second

func names(m map[string][]byte) (l []string) {
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

// Hostile lists the misbehaviours.
func Hostile() []HostilePeer {
	var l []HostilePeer
	add := func(name string, ut, size int, f func(c *Conn, r *rand.Rand)) {
		l = append(l, HostilePeer{Name: name, Ut: ut, Size: size, Script: func(r *rand.Rand) Script {
			return func(c *Conn) { f(c, r) }
		}})
	}
	heavy := func(name string, ut, size int, f func(c *Conn, r *rand.Rand)) {
		add(name, ut, size, f)
		l[len(l)-1].Heavy = true
	}
	wait := func(c *Conn) { c.Gone(Patience) }
	// handshakes
	add("silent", 0, -1, func(c *Conn, r *rand.Rand) { wait(c) })
	add("closes at once", 0, -1, func(c *Conn, r *rand.Rand) {})
	add("resets at once", 0, -1, func(c *Conn, r *rand.Rand) {
		c.Conn.(*net.TCPConn).SetLinger(0)
	})
	add("half a handshake, then silence", 0, -1, func(c *Conn, r *rand.Rand) { c.Write(GoodHs(c)[:1+r.Intn(67)]); wait(c) })
	add("half a handshake, then close", 0, -1, func(c *Conn, r *rand.Rand) { c.Write(GoodHs(c)[:1+r.Intn(67)]) })
	add("handshake of random bytes", 0, -1, func(c *Conn, r *rand.Rand) { c.Write(h.Bytes(r, 68+r.Intn(100))); wait(c) })
	for _, n := range []int{0, 18, 20, 47, 48, 67, 128, 255} {
		n := n
		add(fmt.Sprintf("protocol name length %d", n), 0, -1, func(c *Conn, r *rand.Rand) {
			b := GoodHs(c)
			b[0] = byte(n)
			c.Write(b)
			wait(c)
		})
	}
	add("another protocol", 0, -1, func(c *Conn, r *rand.Rand) {
		b := GoodHs(c)
		copy(b[1:], "BitTorrent protocoX")
		c.Write(b)
		wait(c)
	})
	add("no extension bit", 0, -1, func(c *Conn, r *rand.Rand) {
		b := GoodHs(c)
		b[25] &^= 0x10
		c.Write(b)
		wait(c)
	})
	drip := func(c *Conn, b []byte, d time.Duration) {
		t := time.Now()
		for i := 0; time.Since(t) < Patience; i++ {
			if _, err := c.Write([]byte{b[i%len(b)]}); err != nil {
				return
			}
			if !c.Sleep(d) {
				return
			}
			if e, _ := c.Log.Ended(); e {
				return
			}
		}
	}
	add("handshake one byte at a time", 0, -1, func(c *Conn, r *rand.Rand) { drip(c, GoodHs(c), 700*time.Millisecond) })
	add("a message one byte at a time", 0, -1, func(c *Conn, r *rand.Rand) {
		c.Write(GoodHs(c))
		m := Frame(7, make([]byte, 30000))
		drip(c, m, 200*time.Millisecond)
	})
	add("pieces one byte at a time", 3, 100000, func(c *Conn, r *rand.Rand) {
		c.Write(append(GoodHs(c), OkExt(100000)...))
		drip(c, Data(ref.I(0), ref.I(1), ref.I(100000), make([]byte, 16384)), 300*time.Millisecond)
	})
	add("keep-alives only, slowly", 0, -1, func(c *Conn, r *rand.Rand) {
		c.Write(GoodHs(c))
		for t := time.Now(); time.Since(t) < Patience; {
			if _, err := c.Write([]byte{0, 0, 0, 0}); err != nil || !c.Sleep(100*time.Millisecond) {
				return
			}
		}
	})
	add("chatter, slowly, no metadata", 3, 50000, func(c *Conn, r *rand.Rand) {
		c.Write(append(GoodHs(c), OkExt(50000)...))
		for t := time.Now(); time.Since(t) < Patience; {
			if _, err := c.Write(Frame(4, []byte{0, 0, 0, byte(r.Intn(256))})); err != nil || !c.Sleep(100*time.Millisecond) {
				return
			}
		}
	})
	for _, x := range []struct {
		pre   int // what it announces
		first time.Duration
		step  time.Duration
	}{{50000, 9700 * time.Millisecond, 500 * time.Millisecond}, {50000, 900 * time.Millisecond, 100 * time.Millisecond}, {MaxMeta, 4500 * time.Millisecond, 700 * time.Millisecond}, {0, 9 * time.Second, 900 * time.Millisecond}} {
		x := x
		size := x.pre
		if size == 0 {
			size = -1
		}
		add(fmt.Sprintf("chatter for %v after announcing %d bytes, then silence", x.first, x.pre), 3, size, func(c *Conn, r *rand.Rand) {
			c.Write(GoodHs(c))
			if x.pre > 0 {
				c.Write(OkExt(x.pre))
			}
			for t := time.Now(); time.Since(t) < x.first; {
				if _, err := c.Write(Frame(4, []byte{0, 0, 0, 1})); err != nil || !c.Sleep(x.step) {
					return
				}
			}
			wait(c)
		})
	}
	// message framing
	for _, n := range []uint32{1, 2, 32769, 65536, 1 << 24, 0x7fffffff, 0x80000000, 0xffffffff} {
		n := n
		add(fmt.Sprintf("message length %d", n), 0, -1, func(c *Conn, r *rand.Rand) {
			b := make([]byte, 5)
			binary.BigEndian.PutUint32(b, n)
			b[4] = 20
			c.Write(append(GoodHs(c), append(b, h.Bytes(r, r.Intn(2000))...)...))
			wait(c)
		})
	}
	add("extension message of one byte", 0, -1, func(c *Conn, r *rand.Rand) {
		c.Write(append(GoodHs(c), 0, 0, 0, 1, 20))
		wait(c)
	})
	for id := 0; id < 4; id++ {
		id := id
		add(fmt.Sprintf("empty extension message %d", id), 0, -1, func(c *Conn, r *rand.Rand) {
			c.Write(append(GoodHs(c), Ext(byte(id), nil)...))
			wait(c)
		})
		add(fmt.Sprintf("random extension message %d", id), 0, -1, func(c *Conn, r *rand.Rand) {
			c.Write(append(GoodHs(c), Ext(byte(id), h.Bytes(r, 1+r.Intn(400)))...))
			wait(c)
		})
	}
	add("random stream after the handshake", 0, -1, func(c *Conn, r *rand.Rand) {
		c.Write(GoodHs(c))
		for i := 0; i < 20; i++ {
			c.Write(h.Bytes(r, 1+r.Intn(3000)))
		}
		wait(c)
	})
	// extension handshakes
	bad := map[string][]byte{
		"no m":                      ExtHs(nil, ref.I(100)),
		"no size":                   ExtHs(ref.I(3), nil),
		"negative size":             ExtHs(ref.I(3), ref.I(-1)),
		"most negative size":        ExtHs(ref.I(3), ref.I(-1<<63)),
		"size 2^62":                 ExtHs(ref.I(3), ref.I(1<<62)),
		"size 2^63-1":               ExtHs(ref.I(3), ref.I(1<<63-1)),
		"size is text":              ExtHs(ref.I(3), ref.S("100")),
		"size is a list":            ExtHs(ref.I(3), ref.L(ref.I(1))),
		"id is text":                ExtHs(ref.S("3"), ref.S("100")),
		"m is a number":             Ext(0, []byte("d1:mi3e13:metadata_sizei100ee")),
		"m is a list":               Ext(0, []byte("d1:mli1ee13:metadata_sizei100ee")),
		"size with too many digits": Ext(0, []byte("d1:md11:ut_metadatai3ee13:metadata_sizei"+strings.Repeat("9", 300)+"ee")),
		"not a dictionary":          Ext(0, []byte("i5e")),
		"unterminated":              Ext(0, []byte("d1:md11:ut_metadatai3e")),
		"deep nesting":              Ext(0, []byte(strings.Repeat("d1:m", 8000))),
		"deep lists":                Ext(0, []byte(strings.Repeat("l", 32000))),
		"huge string length":        Ext(0, []byte("d99999999999999999:m")),
	}
	for _, name := range names(bad) {
		b := bad[name]
		add("extension handshake: "+name, 0, -1, func(c *Conn, r *rand.Rand) {
			c.Write(append(GoodHs(c), b...))
			wait(c)
		})
	}
	// metadata messages
	msgs := map[string][]byte{
		"negative piece":        Data(ref.I(-1), ref.I(1), ref.I(50000), []byte("x")),
		"most negative piece":   Data(ref.I(-1<<63), ref.I(1), ref.I(50000), []byte("x")),
		"piece past the end":    Data(ref.I(4), ref.I(1), ref.I(50000), []byte("x")),
		"huge piece":            Data(ref.I(1<<62), ref.I(1), ref.I(50000), []byte("x")),
		"piece is text":         Data(ref.S("0"), ref.I(1), ref.I(50000), []byte("x")),
		"no piece":              Data(nil, ref.I(1), ref.I(50000), []byte("x")),
		"no type":               Data(ref.I(0), nil, ref.I(50000), []byte("x")),
		"type is text":          Data(ref.I(0), ref.S("1"), ref.I(50000), []byte("x")),
		"no total":              Data(ref.I(0), ref.I(1), nil, []byte("x")),
		"negative total":        Data(ref.I(0), ref.I(1), ref.I(-5), []byte("x")),
		"huge total":            Data(ref.I(0), ref.I(1), ref.I(1<<62), []byte("x")),
		"empty piece":           Data(ref.I(0), ref.I(1), ref.I(50000), nil),
		"oversized piece":       Data(ref.I(0), ref.I(1), ref.I(50000), make([]byte, 32000)),
		"reject":                Data(ref.I(0), ref.I(2), nil, nil),
		"request":               Data(ref.I(0), ref.I(0), nil, nil),
		"unknown type":          Data(ref.I(0), ref.I(99), ref.I(50000), []byte("x")),
		"negative type":         Data(ref.I(0), ref.I(-1), ref.I(50000), []byte("x")),
		"not a dictionary":      Ext(1, []byte("4:abcd")),
		"unterminated":          Ext(1, []byte("d8:msg_typei1e")),
		"deep nesting":          Ext(1, []byte(strings.Repeat("l", 30000))),
		"wrong pieces, all":     append(append(Data(ref.I(0), ref.I(1), ref.I(50000), make([]byte, 16384)), Data(ref.I(1), ref.I(1), ref.I(50000), make([]byte, 16384))...), append(Data(ref.I(2), ref.I(1), ref.I(50000), make([]byte, 16384)), Data(ref.I(3), ref.I(1), ref.I(50000), make([]byte, 848))...)...),
		"the same piece always": append(Data(ref.I(0), ref.I(1), ref.I(50000), make([]byte, 16384)), Data(ref.I(0), ref.I(1), ref.I(50000), make([]byte, 16384))...),
	}
	for _, name := range names(msgs) {
		b := msgs[name]
		add("metadata message: "+name, 3, 50000, func(c *Conn, r *rand.Rand) {
			c.Write(append(append(GoodHs(c), OkExt(50000)...), b...))
			wait(c)
		})
		add("metadata message before the extension handshake: "+name, 3, 50000, func(c *Conn, r *rand.Rand) {
			c.Write(append(GoodHs(c), b...))
			c.Sleep(5 * time.Millisecond)
			c.Write(OkExt(50000))
			wait(c)
		})
	}
	add("size zero", 3, 0, func(c *Conn, r *rand.Rand) {
		c.Write(append(GoodHs(c), OkExt(0)...))
		wait(c)
	})
	add("goes away between pieces", 3, 50000, func(c *Conn, r *rand.Rand) {
		c.Write(append(append(GoodHs(c), OkExt(50000)...), Data(ref.I(0), ref.I(1), ref.I(50000), make([]byte, 16384))...))
		c.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		if r.Intn(2) == 0 {
			c.Conn.(*net.TCPConn).SetLinger(0)
		}
	})
	add("the extension handshake again and again", 3, 200000, func(c *Conn, r *rand.Rand) {
		c.Write(GoodHs(c))
		for i := 0; i < 50; i++ {
			if _, err := c.Write(OkExt(200000)); err != nil {
				return
			}
		}
		wait(c)
	})
	add("stops reading", 3, MaxMeta, func(c *Conn, r *rand.Rand) {
		c.Mute()
		c.Conn.(*net.TCPConn).SetReadBuffer(2048)
		c.Write(append(GoodHs(c), OkExt(MaxMeta)...))
		c.Sleep(2 * time.Second)
	})
	heavy("never reads, repeats its extension handshake for ever", 3, MaxMeta, func(c *Conn, r *rand.Rand) {
		c.Mute()
		c.Conn.(*net.TCPConn).SetReadBuffer(2048)
		c.Write(GoodHs(c))
		m := OkExt(MaxMeta)
		for t := time.Now(); time.Since(t) < Patience; {
			if _, err := c.Write(m); err != nil {
				return
			}
		}
	})
	flood := func(c *Conn, pre []byte, b []byte) {
		if _, err := c.Write(append(GoodHs(c), pre...)); err != nil {
			return
		}
		for t := time.Now(); time.Since(t) < Patience; {
			if _, err := c.Write(b); err != nil {
				return
			}
		}
	}
	heavy("keep-alives for ever", 0, -1, func(c *Conn, r *rand.Rand) { flood(c, nil, make([]byte, 4000)) })
	heavy("unknown messages for ever", 3, 50000, func(c *Conn, r *rand.Rand) {
		flood(c, OkExt(50000), Frame(byte(r.Intn(19)), make([]byte, 32000)))
	})
	heavy("unknown extension messages for ever", 3, 50000, func(c *Conn, r *rand.Rand) {
		flood(c, OkExt(50000), Ext(byte(2+r.Intn(250)), make([]byte, 32000)))
	})
	heavy("one piece for ever", 3, 50000, func(c *Conn, r *rand.Rand) {
		flood(c, OkExt(50000), Data(ref.I(0), ref.I(1), ref.I(50000), make([]byte, 32000)))
	})
	heavy("rejects for ever", 3, 50000, func(c *Conn, r *rand.Rand) {
		flood(c, OkExt(50000), Data(ref.I(0), ref.I(2), nil, nil))
	})
	heavy("pieces of a metadata dictionary that is all keys, for ever", 3, 50000, func(c *Conn, r *rand.Rand) {
		var b []byte
		for i := 0; len(b) < 30000; i++ {
			b = append(b, fmt.Sprintf("6:%06dle", i)...)
		}
		flood(c, OkExt(50000), Ext(1, append(append([]byte("d8:msg_typei1e5:piecei0e"), b...), 'e')))
	})
	for _, sz := range []int64{MaxMeta, MaxMeta + 1, 64 << 20, 200 << 20, 1 << 30, 1 << 32, 1 << 36} {
		sz := sz
		believed := -1
		if sz <= MaxMeta {
			believed = int(sz)
		}
		heavy(fmt.Sprintf("announces %d bytes and sends pieces as fast as it can", sz), 3, believed, func(c *Conn, r *rand.Rand) {
			c.Write(append(GoodHs(c), ExtHs(ref.I(3), ref.I(sz))...))
			// one buffer, so that the memory watched is the fetcher's
			buf := make([]byte, 32768)
			n := (sz + 16383) / 16384
			for i, t := int64(0), time.Now(); time.Since(t) < Patience; i++ {
				b := append(buf[:4], 20, 1)
				b = append(b, "d8:msg_typei1e5:piecei"...)
				b = strconv.AppendInt(b, i%n, 10)
				b = append(b, "e10:total_sizei"...)
				b = strconv.AppendInt(b, sz, 10)
				b = append(b, "ee"...)
				b = b[:32760]
				binary.BigEndian.PutUint32(b, uint32(len(b)-4))
				if _, err := c.Write(b); err != nil {
					return
				}
			}
		})
		heavy(fmt.Sprintf("announces %d bytes and stops reading", sz), 3, believed, func(c *Conn, r *rand.Rand) {
			c.Mute()
			c.Conn.(*net.TCPConn).SetReadBuffer(2048)
			c.Write(append(GoodHs(c), ExtHs(ref.I(3), ref.I(sz))...))
			t := time.Now()
			for time.Since(t) < Patience && c.Sleep(200*time.Millisecond) {
				// a keep-alive tells when the fetcher has gone
				if _, err := c.Write([]byte{0, 0, 0, 0}); err != nil {
					return
				}
			}
		})
	}
	heavy("message of 1 GiB", 0, -1, func(c *Conn, r *rand.Rand) {
		flood(c, []byte{0x40, 0, 0, 0, 20, 1}, make([]byte, 65536))
	})
	heavy("message of 200 MiB", 0, -1, func(c *Conn, r *rand.Rand) {
		flood(c, []byte{0x0c, 0x80, 0, 0, 7}, make([]byte, 65536))
	})
	return l
}
