package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/h"
	"verifharness/ref"
	"verifharness/udpx"
)

// ---- a simulated DHT

func prefixLen(a, b string) int {
	for i := 0; i < len(a)*8; i++ {
		if (a[i/8]^b[i/8])>>(7-uint(i%8))&1 != 0 {
			return i
		}
	}
	return len(a) * 8
}

func withPrefix(r *rand.Rand, host string, p int) string {
	b := h.Bytes(r, 20)
	for i := 0; i < 160; i++ {
		m := byte(1) << (7 - uint(i%8))
		switch {
		case i < p:
			b[i/8] = b[i/8]&^m | host[i/8]&m
		case i == p:
			b[i/8] = b[i/8]&^m | ^host[i/8]&m
		}
	}
	return string(b)
}

type seen struct {
	t, id, target string
	at            time.Time
	raw           []byte
}

type dhtNode struct {
	net   *dhtNet
	id    string
	class int
	sock  *udpx.Sock
	knows []int    // contacts it tells about
	twins []string // further ids that answer at its address
	mu    sync.Mutex
	got   []seen
	odd   []string
	r     *rand.Rand
	from  *net.UDPAddr // the crawler
}

type dhtNet struct {
	nodes  []*dhtNode
	boot   *dhtNode
	last   int64 // time of the last datagram, unix nanoseconds
	style  int
	ghosts []*dhtNode // never advertised in a valid answer
	extra  string     // appended to every list: a trailing fragment
	dead   []string   // contacts nothing can be sent to
	pacer  sync.Mutex
	sent   int
	slow   time.Duration // answers take up to this long
	boots  int           // the bootstrap node tells about itself: 1 anywhere, 2 first
}

func (n *dhtNode) compact() string {
	b := make([]byte, 6)
	copy(b, n.sock.Addr.IP.To4())
	binary.BigEndian.PutUint16(b[4:], uint16(n.sock.Addr.Port))
	return n.id + string(b)
}

func (n *dhtNode) twinContacts() (l []string) {
	for _, t := range n.twins {
		l = append(l, t+n.compact()[20:])
	}
	return
}

func (n *dhtNode) name() string {
	return fmt.Sprintf("%x(class %d)@%s", n.id[:4], n.class, n.sock.Addr)
}

// pace keeps the network from overrunning the crawler's socket buffer.
func (d *dhtNet) pace(port int) {
	d.pacer.Lock()
	defer d.pacer.Unlock()
	d.sent++
	if d.sent%8 == 0 {
		for i := 0; i < 2000 && udpx.Queued(port) > 50000; i++ {
			time.Sleep(time.Millisecond)
		}
	}
}

func (d *dhtNet) touch() { atomic.StoreInt64(&d.last, time.Now().UnixNano()) }

func (d *dhtNet) newNode(r *rand.Rand, id string, ip string, port int) *dhtNode {
	n := &dhtNode{net: d, id: id, class: prefixLen(id, crawlerId), r: rand.New(rand.NewSource(r.Int63()))}
	for i := 0; ; i++ {
		pt := port
		if i > 0 {
			pt = 0
		}
		s, err := udpx.Listen(ip, pt, n.on)
		if err == nil {
			n.sock = s
			return n
		}
		if i > 50 {
			h.Fatal("node socket %s: %v", ip, err)
		}
	}
}

func (d *dhtNet) Close() {
	for _, n := range d.nodes {
		n.sock.Close()
	}
	for _, n := range d.ghosts {
		n.sock.Close()
	}
	if d.boot != nil {
		d.boot.sock.Close()
	}
}

func (d *dhtNet) ports() (p []int) {
	for _, n := range d.nodes {
		p = append(p, n.sock.Addr.Port)
	}
	if d.boot != nil {
		p = append(p, d.boot.sock.Addr.Port)
	}
	return
}

// list is what the node answers: its contacts, repeats, the crawler itself.
func (n *dhtNode) list(room int) string {
	out := n.twinContacts()
	for _, k := range n.knows {
		out = append(out, n.net.nodes[k].compact())
	}
	if len(out) > room {
		out = out[:room]
	}
	if len(out) > 0 && n.r.Intn(2) == 0 {
		out = append(out, out[n.r.Intn(len(out))])
	}
	if n.r.Intn(3) == 0 && n.sock != nil && n != n.net.boot {
		out = append(out, n.compact()) // itself
	}
	if len(n.net.dead) > 0 && n.r.Intn(3) > 0 {
		out = append(out, n.net.dead[n.r.Intn(len(n.net.dead))])
	}
	if n.r.Intn(4) == 0 {
		// the crawler itself, at some address
		out = append(out, crawlerId+string([]byte{127, 0, 0, 1, 0x23, 0x45}))
	}
	if n == n.net.boot && n.net.boots > 0 {
		room--
	}
	if len(out) > room {
		out = out[:room] // a datagram holds no more
	}
	h.R.Max("longest_list_given", int64(len(out)))
	n.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if n == n.net.boot && n.net.boots > 0 && len(out) > 0 {
		// (crawlOnce left room for it)
		out = append(out, n.compact())
		if n.net.boots == 2 {
			out[0], out[len(out)-1] = out[len(out)-1], out[0]
		}
	}
	return strings.Join(out, "") + n.net.extra
}

func (n *dhtNode) on(p udpx.Packet) {
	n.net.touch()
	n.mu.Lock()
	defer n.mu.Unlock()
	v, k, st := ref.Parse(string(p.B))
	if st != ref.OK || k != len(p.B) || v.Kind != ref.Dict {
		n.odd = append(n.odd, h.Hex(p.B))
		return
	}
	y, _ := v.Str("y")
	q, _ := v.Str("q")
	t, _ := v.Str("t")
	a := v.Get("a")
	if y != "q" || q != "find_node" || t == "" || a == nil || a.Kind != ref.Dict {
		n.odd = append(n.odd, h.Hex(p.B))
		return
	}
	id, _ := a.Str("id")
	target, _ := a.Str("target")
	n.from = p.From
	n.got = append(n.got, seen{t, id, target, time.Now(), p.B})
	ans := func(tt, list string) []byte {
		return response(tt, ref.D(ref.E("id", ref.S(n.id)), ref.E("nodes", ref.S(list))))
	}
	if b := n.bystanders(); b != nil && len(n.knows) < 28 {
		// what other programs also put in their answers
		ans = func(tt, list string) []byte {
			d := ref.D(append([]ref.Entry{ref.E("id", ref.S(n.id)), ref.E("nodes", ref.S(list))}, b...)...)
			return ref.Encode(ref.D(ref.E("ip", ref.S("\x7f\x00\x00\x01\x12\x34")), ref.E("r", d), ref.E("t", ref.S(tt)), ref.E("v", ref.S("UT\xab\x00")), ref.E("y", ref.S("r"))))
		}
	}
	send := func(b []byte) {
		if n.net.slow > 0 {
			time.AfterFunc(time.Duration(n.r.Int63n(int64(n.net.slow))), func() { n.sock.Send(b, p.From) })
			return
		}
		n.net.pace(p.From.Port)
		n.sock.Send(b, p.From)
	}
	l := n.list((1024 - len(ans(t, "")) - 3 - len(n.net.extra)) / 26)
	switch style := n.net.style; {
	case style == 1 && n.r.Intn(3) == 0:
		// the same answer several times
		for i := 0; i < 3; i++ {
			send(ans(t, l))
		}
	case style == 2:
		// an answer that belongs to no query brings contacts nobody may believe
		send(ans("\xff\xfe"+t, n.net.ghostList(n.r)))
		send(ans(t, l))
	case style == 3:
		d := time.Duration(n.r.Intn(120)) * time.Millisecond
		time.AfterFunc(d, func() { n.net.touch(); send(ans(t, l)) })
	default:
		send(ans(t, l))
	}
}

// bystanders are entries of an answer nobody asked for.
func (n *dhtNode) bystanders() (b []ref.Entry) {
	if n.r.Intn(3) > 0 {
		return nil
	}
	if n.r.Intn(2) == 0 {
		b = append(b, ref.E("nodes6", ref.S(string(h.Bytes(n.r, 38*n.r.Intn(3))))))
	}
	if n.r.Intn(2) == 0 {
		b = append(b, ref.E("p", ref.I(int64(n.r.Intn(65536)))))
	}
	if n.r.Intn(2) == 0 {
		b = append(b, ref.E("token", ref.S(string(h.Bytes(n.r, 1+n.r.Intn(20))))))
	}
	if n.r.Intn(2) == 0 {
		l := ref.L()
		for k := n.r.Intn(4); k > 0; k-- {
			l.L = append(l.L, ref.S(string(h.Bytes(n.r, 6))))
		}
		b = append(b, ref.E("values", l))
	}
	return
}

func (d *dhtNet) ghostList(r *rand.Rand) string {
	g := ""
	for i, k := range r.Perm(len(d.ghosts)) {
		if i < 30 {
			g += d.ghosts[k].compact()
		}
	}
	return g
}

// afterwards answers again the queries that were answered long ago.
func (d *dhtNet) afterwards() {
	d.touch()
	for i, n := range d.nodes {
		n.mu.Lock()
		if len(n.got) > 0 && n.from != nil {
			t := n.got[0].t
			g := d.ghostList(n.r)
			n.sock.Send(response(t, ref.D(ref.E("id", ref.S(n.id)), ref.E("nodes", ref.S(g)))), n.from)
			n.sock.Send(ref.Encode(ref.D(ref.E("e", ref.L(ref.I(201), ref.S(g))), ref.E("t", ref.S(t)), ref.E("y", ref.S("e")))), n.from)
		}
		n.mu.Unlock()
		if i%20 == 19 {
			time.Sleep(2 * time.Millisecond)
		}
	}
}

// quiet waits until the network has been silent for a while.
func (d *dhtNet) quiet(p *Proc, silence, limit time.Duration) bool {
	d.touch()
	return h.Wait(limit, func() bool {
		return p.exited() || time.Since(time.Unix(0, atomic.LoadInt64(&d.last))) > silence && udpx.Queued(p.Port) == 0
	})
}

func portFor(r *rand.Rand) int {
	switch r.Intn(8) {
	case 3:
		return 1 + r.Intn(255) // high byte zero
	case 4:
		return 256 + r.Intn(768)
	case 0:
		return 0x100 * (5 + r.Intn(100)) // low byte zero
	case 1:
		return 65535 - r.Intn(40)
	case 2:
		return 1024 + r.Intn(255)
	}
	return 0
}

func ipFor(r *rand.Rand) string {
	o := func() int {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return 255
		}
		return r.Intn(256)
	}
	return ip4(127, 1+r.Intn(254), o(), o())
}

// build makes a network whose every contact has room in the table whatever the
// order (perClass below the range size), or crowded ranges.
func buildNet(r *rand.Rand, classes, perClass int, style int) *dhtNet {
	d := &dhtNet{style: style}
	// nodes on many hosts, often on one and the same port
	common := 0
	switch r.Intn(3) {
	case 0:
		common = udpx.FreePort()
	case 1, 2:
		if classes < 60 && r.Intn(2) == 0 {
			break
		}
		common = []int{6881, 6881, 6881, 53, 8999, 51413, 1337}[r.Intn(7)]
	}
	port := func() int {
		if common > 0 && r.Intn(3) > 0 {
			return common
		}
		return portFor(r)
	}
	for c := 0; c < classes; c++ {
		for k := 0; k < perClass; k++ {
			id := withPrefix(r, crawlerId, c)
			if r.Intn(10) == 0 {
				id = id[:17] + strings.Repeat(string([]byte{[]byte{0, 255, 32, 10}[r.Intn(4)]}), 3)
			}
			d.nodes = append(d.nodes, d.newNode(r, id, ipFor(r), port()))
		}
	}
	r.Shuffle(len(d.nodes), func(i, j int) { d.nodes[i], d.nodes[j] = d.nodes[j], d.nodes[i] })
	d.boot = d.newNode(r, string(h.Bytes(r, 20)), ipFor(r), common)
	// every node is known to someone reached before it
	n := len(d.nodes)
	d.boot.knows = nil
	first, most := 8, 20
	if r.Intn(3) > 0 {
		first, most = 36, 36
	}
	for i := 0; i < first && i < n; i++ {
		d.boot.knows = append(d.boot.knows, i)
	}
	for i := first; i < n; i++ {
		j := r.Intn(i)
		if most > 20 {
			j = i / 30 // full lists
		}
		for len(d.nodes[j].knows) >= most {
			j = r.Intn(i)
		}
		d.nodes[j].knows = append(d.nodes[j].knows, i)
	}
	for _, x := range d.nodes {
		for k := r.Intn(10); k > 0 && most == 20; k-- {
			x.knows = append(x.knows, r.Intn(n))
		}
	}
	if classes <= 60 && style >= 0 {
		for i := 0; i < 12 && i < n; i++ {
			// in ranges of their own, where there is room
			x := d.nodes[r.Intn(n)]
			if len(x.knows) < 20 && len(x.twins) == 0 {
				for k := 0; k < 2+r.Intn(2); k++ {
					x.twins = append(x.twins, withPrefix(r, crawlerId, 85+3*i+k))
				}
			}
		}
		for i := 0; i < 8; i++ {
			bad := "\x7f\x00\x00\x01\x00\x00" // port 0
			if i%2 == 1 {
				bad = "\xff\xff\xff\xff\x10\x00" // everybody
			}
			d.dead = append(d.dead, withPrefix(r, crawlerId, 130+i)+bad)
		}
	}
	if style == 2 {
		for i := 0; i < 40; i++ {
			d.ghosts = append(d.ghosts, d.newNode(r, withPrefix(r, crawlerId, classes+1+i%20), ipFor(r), 0))
		}
	}
	if r.Intn(2) == 0 {
		d.extra = string(h.Bytes(r, 1+r.Intn(25)))
	}
	return d
}

// checkQueries judges every query every node received.
func (d *dhtNet) checkQueries(what string) (total int) {
	R := h.R
	tids := map[string]string{}
	all := append([]*dhtNode{}, d.nodes...)
	if d.boot != nil {
		all = append(all, d.boot)
	}
	for _, n := range all {
		n.mu.Lock()
		for _, s := range n.got {
			total++
			if s.id != crawlerId {
				R.Violate("query-id", fmt.Sprintf("%s: a find_node query carries id %x, the crawler's is %x", what, s.id, crawlerId), h.Hex(s.raw))
			}
			if len(s.target) != 20 {
				R.Violate("query-target", fmt.Sprintf("%s: a find_node query carries a target of %d bytes", what, len(s.target)), h.Hex(s.raw))
			}
			if other, dup := tids[s.t]; dup {
				R.Violate("query-tid", fmt.Sprintf("%s: the transaction id %x was used towards %s and %s", what, s.t, other, n.name()), nil)
			}
			tids[s.t] = n.name()
		}
		if len(n.odd) > 0 {
			R.Violate("odd-datagram", fmt.Sprintf("%s: %s received a datagram that is no find_node query", what, n.name()), n.odd[0])
		}
		n.mu.Unlock()
	}
	for _, g := range d.ghosts {
		g.mu.Lock()
		if len(g.got)+len(g.odd) > 0 {
			R.Violate("ghost-queried", fmt.Sprintf("%s: %s was queried though no answer to a query named it", what, g.name()), nil)
		}
		g.mu.Unlock()
	}
	return
}

func (n *dhtNode) count() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.got)
}

func (d *dhtNet) lossless(p *Proc) bool {
	ok, _ := udpx.Lossless(append(d.ports(), p.Port)...)
	return ok
}

// ---- D08

func d08() {
	R := h.R
	R.Rule = "crawls of simulated networks that repeat contacts, list the crawler and themselves, answer late, several times or with unsolicited extra answers, roomy and crowded; distinct = network style x node class x advertised address class; oracle: queries counted per node at its own socket, compared with what the table must admit"
	stop := h.Guard("hang", "crawl", time.Duration(h.N(280, 3000))*time.Second)
	defer stop()
	for round := 0; round < h.N(8, 60) && R.Bad() < 3; round++ {
		r := h.Rand("d08", round)
		crawlOnce(round, r, []int{30, 12, 60, 20, 40}[round%5], []int{1, 1, 4, 1, 1}[round%5]+r.Intn([]int{7, 7, 4, 7, 7}[round%5]), round%4)
	}
	for round := 0; round < h.N(3, 20) && R.Bad() < 3; round++ {
		crowded(round)
	}
}

func crawlOnce(round int, r *rand.Rand, classes, per, style int) {
	R := h.R
	d := buildNet(r, classes, per, style)
	defer d.Close()
	d.boots = round % 3
	if d.boots > 0 && len(d.boot.knows) > 35 {
		d.nodes[0].knows = append(d.nodes[0].knows, d.boot.knows[35:]...)
		d.boot.knows = d.boot.knows[:35]
	}
	what := fmt.Sprintf("network of %d nodes, style %d", len(d.nodes), style)
	// several bootstrap entries naming one node are several queries
	p := start(Conf{Bootstrap: []string{d.boot.sock.Addr.String()}, Workers: []int{64, 1, 8}[round%3], Level: []string{"Error", "Info"}[round%2]})
	defer p.Kill()
	h.Wait(20*time.Second, func() bool {
		if p.exited() {
			return true
		}
		for _, n := range d.nodes {
			if n.count() <= len(n.twins) {
				return false
			}
		}
		return true
	})
	if !d.quiet(p, 600*time.Millisecond, 20*time.Second) {
		if !p.Alive("crawling") {
			return
		}
		R.Violate("no-end", what+": the crawl does not come to an end", nil)
	}
	if style == 2 && d.lossless(p) && p.Pings(10*time.Second) {
		d.afterwards()
		d.quiet(p, 500*time.Millisecond, 10*time.Second)
	}
	if !p.Alive("crawling") {
		return
	}
	d.checkQueries(what)
	missing := 0
	ex := ""
	for _, n := range d.nodes {
		c := n.count()
		R.Eval(fmt.Sprintf("%d|%d|%v|%v|%s", style, n.class, n.sock.Addr.Port%256 == 0, n.sock.Addr.Port > 65000, strings.Split(n.sock.Addr.IP.String(), ".")[2]))
		if c == 0 {
			missing++
			ex = n.name()
		}
		if c > 1+len(n.twins) {
			R.Violate("queried-again", fmt.Sprintf("%s: %s was queried %d times, %d ids share its address", what, n.name(), c, 1+len(n.twins)), nil)
		}
		if c > 0 && c < 1+len(n.twins) {
			missing += 1 + len(n.twins) - c
			ex = fmt.Sprintf("%s, where %d further ids answer", n.name(), len(n.twins))
		}
		R.Count("contacts_judged", 1+int64(len(n.twins)))
	}
	if missing > 0 {
		if d.lossless(p) {
			R.Violate("not-queried", fmt.Sprintf("%s: %d contacts with room in the table were not queried, for instance %s", what, missing, ex), nil)
		} else {
			R.Unclear("%s: %d contacts not queried, datagrams were dropped", what, missing)
		}
	}
	times := 1
	if d.boots > 0 {
		times = 2 // and as a contact its own answer named
	}
	if c := d.boot.count(); c != times && (c > times || c == 0 || d.lossless(p)) {
		R.Violate("bootstrap", fmt.Sprintf("%s: the bootstrap node was queried %d times, expected %d", what, c, times), nil)
	}
	if round < 2 {
		R.Sample(map[string]interface{}{"network": what, "queries": d.checkQueries(what)})
	}
}

// crowded offers more contacts than ranges hold: as many as fit are queried.
func crowded(round int) {
	R := h.R
	r := h.Rand("crowded", round)
	classes := 6
	per := 30
	d := buildNet(r, classes, per, 0)
	defer d.Close()
	what := fmt.Sprintf("crowded network %d", round)
	// everybody knows everybody, in turns
	for i, n := range d.nodes {
		n.knows, n.twins = nil, nil
		for k := 0; k < 30; k++ {
			n.knows = append(n.knows, (i*7+k*11+r.Intn(3))%len(d.nodes))
		}
	}
	d.boot.knows = r.Perm(len(d.nodes))[:30]
	p := start(Conf{Bootstrap: []string{d.boot.sock.Addr.String()}})
	defer p.Kill()
	if !d.quiet(p, 700*time.Millisecond, 30*time.Second) && p.Alive("crawling a crowded network") {
		R.Violate("no-end", what+": the crawl does not come to an end", nil)
	}
	if !p.Alive("crawling a crowded network") {
		return
	}
	d.checkQueries(what)
	per1 := map[int]int{}
	total := 0
	for _, n := range d.nodes {
		c := n.count()
		if c > 1 {
			R.Violate("queried-again", fmt.Sprintf("%s: %s was queried %d times", what, n.name(), c), nil)
		}
		if c > 0 {
			per1[n.class]++
			total++
		}
		R.Count("contacts_judged", 1)
	}
	for c, k := range per1 {
		R.Eval(fmt.Sprintf("crowded|%d|%d", c, k))
		if k > 8 {
			R.Violate("refused-queried", fmt.Sprintf("%s: %d contacts that share %d bits were queried, the table admits 8", what, k, c), nil)
		}
	}
	R.Count("admitted_of_crowd", int64(total))
	if total < 8 {
		if d.lossless(p) {
			R.Violate("not-queried", fmt.Sprintf("%s: only %d contacts were queried", what, total), nil)
		}
	}
}

// ---- D05: contacts are read back exactly

func d05() {
	R := h.R
	R.Rule = "lists of contacts with unusual address and port bytes and trailing fragments given to the running crawler; distinct = address bytes and port class; oracle: each contact queried at exactly its own socket"
	stop := h.Guard("hang", "reading contact lists", time.Duration(h.N(200, 3000))*time.Second)
	defer stop()
	for round := 0; round < h.N(3, 30) && R.Bad() < 3; round++ {
		r := h.Rand("d05", round)
		crawlOnce(100+round, r, 25, 5, 0)
	}
}
