// Worker for the routing table, compact lists and transaction ids.
package main

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/GalaIO/P2Pcrawler/dht"
	"github.com/GalaIO/P2Pcrawler/misc"
	"github.com/anishathalye/porcupine"

	"verifharness/h"
	"verifharness/ref"
)

func main() {
	h.Init()
	misc.SetLevel(misc.INFO)
	switch h.Prop {
	case "D01":
		d01()
	case "D02":
		d02()
	case "D03":
		d03()
	case "D04":
		d04()
	case "D05":
		d05()
	case "D06":
		d06()
	case "R01":
		h.R.Rule = "concurrent additions, lookups, listings and size queries on routing tables and concurrent transaction id generation under the race detector"
		rule := h.R.Rule
		d03()
		d06conc()
		h.R.Rule = rule
	default:
		h.Fatal("unknown property %q", h.Prop)
	}
	h.R.Finish()
	os.Exit(0)
}

// ---- ids and the reference table

func prefixLen(a, b string) int {
	if len(a) > len(b) {
		a = a[:len(b)]
	}
	for i := 0; i < len(a)*8; i++ {
		if (a[i/8]^b[i/8])>>(7-uint(i%8))&1 != 0 {
			return i
		}
	}
	return len(a) * 8
}

// withPrefix makes an id that shares exactly p bits with host.
func withPrefix(r *rand.Rand, host string, p int) string {
	b := h.Bytes(r, 20)
	for i := 0; i < 160; i++ {
		m := byte(1) << (7 - uint(i%8))
		switch {
		case i < p:
			b[i/8] = b[i/8]&^m | host[i/8]&m
		case i == p:
			b[i/8] = b[i/8]&^m | ^host[i/8]&m
		}
	}
	return string(b)
}

func flip(id string, bit int) string {
	b := []byte(id)
	b[bit/8] ^= 1 << (7 - uint(bit%8))
	return string(b)
}

func addr(r *rand.Rand) *net.UDPAddr {
	return &net.UDPAddr{IP: net.IP(h.Bytes(r, 4)), Port: r.Intn(65536)}
}

type model struct {
	host     string
	k, limit int
	last     int
	bucket   map[int][]string
	addrs    map[string]string
}

func newModel(host, addr string, k, limit int) *model {
	return &model{host, k, limit, 0, map[int][]string{0: {host}}, map[string]string{host: addr}}
}

func (m *model) index(id string) int {
	p := prefixLen(id, m.host)
	if p > m.last {
		p = m.last
	}
	return p
}

// add is the Kademlia rule: only the nearest range is split.
func (m *model) add(id, addr string) bool {
	if _, ok := m.addrs[id]; ok {
		return false
	}
	for {
		i := m.index(id)
		if len(m.bucket[i]) < m.k {
			m.bucket[i] = append(m.bucket[i], id)
			m.addrs[id] = addr
			return true
		}
		if i < m.last || m.last >= m.limit {
			return false
		}
		all := m.bucket[m.last]
		m.bucket[m.last] = nil
		m.last++
		for _, x := range all {
			j := m.index(x)
			m.bucket[j] = append(m.bucket[j], x)
		}
	}
}

func hx(s string) string { return fmt.Sprintf("%x", s) }

type table struct {
	t    *dht.RouteTable
	m    *model
	log  []string
	host string
}

func newTable(r *rand.Rand, k, limit int) *table {
	host := string(h.Bytes(r, 20))
	switch r.Intn(6) {
	case 0:
		host = strings.Repeat("\x00", 20)
	case 1:
		host = strings.Repeat("\xff", 20)
	}
	a := addr(r)
	t := &table{m: newModel(host, a.String(), k, limit), host: host}
	t.t = dht.NewRouteTable(dht.NewNodeInfo(host, a), k, limit)
	t.log = append(t.log, fmt.Sprintf("table host=%x k=%d splits<=%d", host, k, limit))
	return t
}

func (t *table) witness() interface{} {
	l := t.log
	if len(l) > 400 {
		l = append(append([]string{}, l[:5]...), l[len(l)-395:]...)
	}
	return l
}

// pick chooses an id to offer: near or far, shaped to fill ranges.
func (t *table) pick(r *rand.Rand, shape int) string {
	switch shape {
	case 0:
		return string(h.Bytes(r, 20))
	case 1:
		return withPrefix(r, t.host, r.Intn(160))
	case 2:
		return withPrefix(r, t.host, r.Intn(8))
	case 3:
		return withPrefix(r, t.host, 159-r.Intn(8))
	case 4: // right at the ranges that exist
		p := t.m.last + r.Intn(4) - 1
		if p < 0 {
			p = 0
		}
		if p > 159 {
			p = 159
		}
		return withPrefix(r, t.host, p)
	default: // one bit away from a held contact
		for id := range t.m.addrs {
			return flip(id, r.Intn(len(id)*8))
		}
		return ""
	}
}

// add offers one contact to both and reports both verdicts.
func (t *table) add(id string, a *net.UDPAddr) (got, want bool) {
	var err error
	p, bad := h.Try(func() { err = t.t.AddNode(dht.NewNodeInfo(id, a)) })
	t.log = append(t.log, fmt.Sprintf("add %x %s p=%d -> %v", id, a, prefixLen(id, t.host), err))
	if bad {
		h.R.Violate("add-panic", fmt.Sprintf("adding a contact panicked: %v", p), t.witness())
	}
	return err == nil && !bad, t.m.add(id, a.String())
}

// all lists the table through the widest lookup.
func (t *table) all() []*dht.NodeInfo {
	var l []*dht.NodeInfo
	if p, bad := h.Try(func() { l = t.t.FindClosest(t.host, 1<<30>>8) }); bad {
		h.R.Violate("lookup-panic", fmt.Sprintf("a lookup panicked: %v", p), t.witness())
	}
	return l
}

func (t *table) find(id string) *dht.NodeInfo {
	var n *dht.NodeInfo
	if p, bad := h.Try(func() { n = t.t.Find(id) }); bad {
		h.R.Violate("find-panic", fmt.Sprintf("finding %x panicked: %v", id, p), t.witness())
	}
	return n
}

var settings = [][2]int{{8, 160}, {8, 160}, {1, 160}, {2, 160}, {3, 5}, {8, 0}, {1, 0}, {2, 1}, {5, 20}, {8, 3}, {16, 160}, {4, 159}, {3, 160}, {20, 160}, {33, 160}, {64, 40}, {100, 160}, {20, 2}}

// ---- D01

func d01() {
	R := h.R
	R.Rule = "tables with many bucket sizes and split limits filled with ids placed in every shared-prefix class, one-bit neighbours, repeats and same-id offers; distinct = setting x shape x prefix class x verdict x table size class; oracle: a reference set of what was reported stored, compared through Find, the widest listing and the size after every operation"
	for n := 0; n < h.N(260, 8000) && R.Bad() < 4; n++ {
		r := h.Rand("d01", n)
		set := settings[n%len(settings)]
		t := newTable(r, set[0], set[1])
		held := map[string]string{t.host: t.m.addrs[t.host]}
		never := []string{}
		ops := 30 + r.Intn(h.N(500, 900))
		for i := 0; i < ops && R.Bad() < 4; i++ {
			shape := r.Intn(6)
			if n%3 == 0 {
				shape = 1 + r.Intn(5)
			}
			id := t.pick(r, shape)
			repeat := ""
			if n%5 == 3 && r.Intn(3) == 0 {
				// no node id, but an id all the same: cut short, or longer
				if r.Intn(3) == 0 {
					for x := range held {
						id = x
						break
					}
				}
				if r.Intn(2) == 0 && len(id) > 1 {
					id = id[:1+r.Intn(len(id)-1)]
				} else {
					id += string(h.Bytes(r, 1+r.Intn(20)))
				}
				repeat = "odd-length"
			}
			if r.Intn(6) == 0 {
				for id = range held {
					break
				}
				repeat = "repeat"
			}
			a := addr(r)
			if n%4 == 2 {
				// many contacts behind a few addresses
				a = &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(r.Intn(2))), Port: 6881 + r.Intn(2)}
				if n%8 == 6 {
					a = &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 6881}
				}
			}
			if repeat == "repeat" && r.Intn(2) == 0 {
				// the identical contact
				if x, err := net.ResolveUDPAddr("udp", held[id]); err == nil {
					a = x
				}
			}
			before := t.t.Size()
			got, _ := t.add(id, a)
			_, known := held[id]
			if got && known {
				R.Violate("repeat-accepted", "adding an id already held was reported successful", t.witness())
			}
			if got && !known {
				held[id] = a.String()
			}
			if !got && !known {
				never = append(never, id)
			}
			R.Eval(fmt.Sprintf("%v|%d|%s|%d|%v|%d", set, shape, repeat, prefixLen(id, t.host), got, len(held)/8))
			if s := t.t.Size(); s != len(held) {
				R.Violate("size", fmt.Sprintf("the table reports size %d after %d contacts were reported stored (size before: %d)", s, len(held), before), t.witness())
			}
			f := t.find(id)
			switch {
			case (got || known) && f == nil:
				R.Violate("lost", "a contact reported stored is not found", t.witness())
			case got && (f.Id != id || f.Addr.String() != a.String()):
				R.Violate("corrupt", fmt.Sprintf("added %x %s, found %x %s", id, a, f.Id, f.Addr), t.witness())
			case !got && !known && f != nil:
				R.Violate("refused-but-found", "a contact whose addition was refused is found", t.witness())
			case known && f != nil && f.Addr.String() != held[id]:
				R.Violate("repeat-changed", "a repeated addition changed the stored contact", t.witness())
			}
			// a neighbour by one bit was not added
			nb := flip(id, r.Intn(len(id)*8))
			switch r.Intn(6) {
			case 0:
				nb = id + string(h.Bytes(r, 1))
			case 1:
				nb = id[:len(id)-1]
			}
			if _, ok := held[nb]; !ok {
				if x := t.find(nb); x != nil {
					R.Violate("invented", fmt.Sprintf("an id never added is found: %x yields %x", nb, x.Id), t.witness())
				}
			}
			if i%37 == 36 || i == ops-1 {
				for id, a := range held {
					f := t.find(id)
					if f == nil {
						R.Violate("lost", fmt.Sprintf("the stored contact %x is no longer found", id), t.witness())
						break
					} else if f.Id != id || f.Addr.String() != a {
						R.Violate("corrupt", fmt.Sprintf("stored %x %s, found %x %s", id, a, f.Id, f.Addr), t.witness())
						break
					}
				}
				for _, id := range never {
					if _, ok := held[id]; !ok && t.find(id) != nil {
						R.Violate("refused-but-found", "a refused contact is found later", t.witness())
						break
					}
				}
				seen := map[string]int{}
				for _, x := range t.all() {
					if x == nil {
						R.Violate("listing", "the listing holds an empty entry", t.witness())
						break
					}
					seen[x.Id]++
					if a, ok := held[x.Id]; !ok || a != x.Addr.String() {
						R.Violate("listing", fmt.Sprintf("the listing holds %x %s which is not a stored contact", x.Id, x.Addr), t.witness())
					}
				}
				for id := range held {
					if seen[id] != 1 {
						R.Violate("listing", fmt.Sprintf("the stored contact %x is listed %d times", id, seen[id]), t.witness())
						break
					}
				}
				R.Count("full_audits", 1)
			}
		}
		R.Max("largest_table", int64(len(held)))
		R.Count("tables", 1)
		if n < 2 {
			R.Sample(map[string]interface{}{"setting k, splits": set, "operations": t.log[:8], "held_at_end": len(held)})
		}
	}
}

// ---- D02

func d02() {
	R := h.R
	R.Rule = "contacts offered in every order of prefix classes to tables of many settings; distinct = setting x prefix class x number of splits x occupancy of the range x verdict; oracle: a reference table that splits only the nearest range decides admission of every offer; per-range and total bounds recounted from the real table's listing"
	for n := 0; n < h.N(500, 12000) && R.Bad() < 3; n++ {
		r := h.Rand("d02", n)
		set := settings[n%len(settings)]
		t := newTable(r, set[0], set[1])
		k := set[0]
		ops := 40 + r.Intn(600)
		style := r.Intn(5)
		for i := 0; i < ops; i++ {
			var id string
			switch style {
			case 0:
				id = string(h.Bytes(r, 20))
			case 1: // far to near
				id = withPrefix(r, t.host, i*160/ops)
			case 2: // near to far
				id = withPrefix(r, t.host, 159-i*160/ops)
			case 3: // crowd one class, then beyond
				p := (i / (k + 3)) % 160
				id = withPrefix(r, t.host, p)
			default:
				id = t.pick(r, r.Intn(6))
			}
			if _, ok := t.m.addrs[id]; ok {
				continue // repeats are another property's business
			}
			idx := t.m.index(id)
			occ, splits := len(t.m.bucket[idx]), t.m.last
			got, want := t.add(id, addr(r))
			R.Eval(fmt.Sprintf("%v|%d|%d|%d|%v", set, prefixLen(id, t.host), splits, occ, want))
			if want {
				R.Count("admitted", 1)
			} else {
				R.Count("refused", 1)
			}
			if got && !want {
				R.Violate("admitted-full", fmt.Sprintf("a contact with %d shared bits was admitted although its range had no room (k=%d, splits %d of %d)", prefixLen(id, t.host), k, splits, set[1]), t.witness())
				break
			}
			if !got && want {
				R.Violate("refused-room", fmt.Sprintf("a contact with %d shared bits was refused although its range had room (k=%d, splits %d of %d)", prefixLen(id, t.host), k, splits, set[1]), t.witness())
				break
			}
			R.Max("most_splits", int64(t.m.last))
		}
		// recount from the table itself
		per := map[int]int{}
		total := 0
		for _, x := range t.all() {
			if x == nil || len(x.Id) != 20 {
				continue
			}
			p := prefixLen(x.Id, t.host)
			if p > t.m.last {
				p = t.m.last
			}
			per[p]++
			total++
		}
		for p, c := range per {
			if c > k {
				R.Violate("range-overfull", fmt.Sprintf("%d contacts share %d bits (k=%d)", c, p, k), t.witness())
			}
		}
		if total > k*(set[1]+1) {
			R.Violate("table-overfull", fmt.Sprintf("%d contacts in a table of k=%d and %d splits", total, k, set[1]), t.witness())
		}
		if n < 2 {
			R.Sample(map[string]interface{}{"setting k, splits": set, "style": style, "operations": t.log[:8], "contacts": total})
		}
	}
}

// ---- D03

type opIn struct {
	kind int // 0 add 1 find 2 size 3 list
	id   int
}

type opOut struct {
	ok bool
	n  int
	s  string
}

func tableModel(ids []string, host string, k, limit int) porcupine.Model {
	// state: the held contacts in the order of their admission
	replay := func(s string) *model {
		m := newModel(host, "", k, limit)
		for i := 0; i < len(s); i++ {
			m.add(ids[s[i]-'A'], "")
		}
		return m
	}
	canon := func(s string) string {
		b := []byte(s)
		sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
		return string(b)
	}
	return porcupine.Model{
		Init: func() interface{} { return "" },
		Step: func(state, in, out interface{}) (bool, interface{}) {
			s, i, o := state.(string), in.(opIn), out.(opOut)
			switch i.kind {
			case 0:
				m := replay(s)
				ok := m.add(ids[i.id], "")
				if ok != o.ok {
					return false, s
				}
				if ok {
					s += string(rune('A' + i.id))
				}
				return true, s
			case 1:
				return o.ok == strings.ContainsRune(s, rune('A'+i.id)), s
			case 2:
				return o.n == len(s)+1, s
			default:
				return o.s == canon(s), s
			}
		},
		DescribeOperation: func(in, out interface{}) string {
			i, o := in.(opIn), out.(opOut)
			c := string(rune('A' + i.id))
			switch i.kind {
			case 0:
				return fmt.Sprintf("add(%s)=%v", c, o.ok)
			case 1:
				return fmt.Sprintf("find(%s)=%v", c, o.ok)
			case 2:
				return fmt.Sprintf("size=%d", o.n)
			}
			return "list=" + o.s
		},
	}
}

func d03() {
	R := h.R
	R.Rule = "short concurrent histories (3 to 6 goroutines, few contacts competing for few places) recorded and checked for linearizability against the reference table; then long stress with online checks; distinct = outcome vectors of the histories; oracle: porcupine, per-id success counts, visibility after success, monotone size, and the final table"
	stop := h.Guard("hang", "the concurrent table workload", time.Duration(h.N(240, 4000))*time.Second)
	defer stop()
	base := time.Now()
	sets := [][2]int{{1, 3}, {2, 2}, {2, 6}, {3, 1}, {1, 160}, {2, 160}}
	for n := 0; n < h.N(2000, 60000) && !R.Violated(); n++ {
		r := h.Rand("lin", n)
		set := sets[n%len(sets)]
		host := string(h.Bytes(r, 20))
		nid := 4 + r.Intn(6)
		var ids []string
		for i := 0; i < nid; i++ {
			ids = append(ids, withPrefix(r, host, r.Intn(5)))
		}
		index := map[string]int{}
		for i, id := range ids {
			index[id] = i
		}
		if len(index) != nid {
			continue
		}
		t := dht.NewRouteTable(dht.NewNodeInfo(host, addr(r)), set[0], set[1])
		G := 3 + r.Intn(4)
		per := 3 + r.Intn(4)
		evs := make([][]porcupine.Operation, G)
		plan := make([][]opIn, G)
		for g := range plan {
			for i := 0; i < per; i++ {
				k := []int{0, 0, 0, 1, 1, 2, 3}[r.Intn(7)]
				plan[g] = append(plan[g], opIn{k, r.Intn(nid)})
			}
		}
		nodes := make([]*dht.NodeInfo, nid)
		for i := range nodes {
			nodes[i] = dht.NewNodeInfo(ids[i], addr(r))
		}
		var wg sync.WaitGroup
		var ready int32
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < int32(G) {
				}
				for _, in := range plan[g] {
					o := opOut{}
					at := int64(time.Since(base))
					switch in.kind {
					case 0:
						o.ok = t.AddNode(nodes[in.id]) == nil
					case 1:
						x := t.Find(ids[in.id])
						o.ok = x != nil
						if x != nil && x.Id != ids[in.id] {
							R.Violate("find-wrong", "a lookup returned another contact", nil)
						}
					case 2:
						o.n = t.Size()
					case 3:
						var b []byte
						for _, x := range t.FindClosest(host, 1<<20) {
							if x != nil && x.Id != host {
								b = append(b, byte('A'+index[x.Id]))
							}
						}
						sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
						o.s = string(b)
					}
					evs[g] = append(evs[g], porcupine.Operation{ClientId: g, Input: in, Call: at, Output: o, Return: int64(time.Since(base))})
				}
			}(g)
		}
		wg.Wait()
		var hist []porcupine.Operation
		overlap := 0
		for _, e := range evs {
			hist = append(hist, e...)
		}
		for i := range hist {
			for j := i + 1; j < len(hist); j++ {
				if hist[i].Call < hist[j].Return && hist[j].Call < hist[i].Return {
					overlap++
				}
			}
		}
		md := tableModel(ids, host, set[0], set[1])
		res := porcupine.CheckOperationsTimeout(md, hist, 20*time.Second)
		var desc []string
		sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
		for _, o := range hist {
			desc = append(desc, fmt.Sprintf("g%d %s", o.ClientId, md.DescribeOperation(o.Input, o.Output)))
		}
		R.Eval(strings.Join(desc, ";"))
		R.Count("operations", int64(len(hist)))
		R.Count("overlapping_pairs", int64(overlap))
		if n < 2 {
			R.Sample(desc)
		}
		switch res {
		case porcupine.Illegal:
			R.Violate("not-linearizable", fmt.Sprintf("no sequential order explains a history of %d operations (k=%d, splits<=%d)", len(hist), set[0], set[1]), desc)
		case porcupine.Unknown:
			R.Unclear("linearizability of a history of %d operations not decided in time", len(hist))
		}
	}
	R.Max("lin_ms", int64(time.Since(base)/time.Millisecond))
	for n := 0; n < h.N(15, 300) && !R.Violated(); n++ {
		d03stress(n)
	}
}

func d03stress(n int) {
	R := h.R
	began := time.Now()
	r := h.Rand("stress", n)
	host := string(h.Bytes(r, 20))
	k, limit := 8, 160
	if n%2 == 1 {
		k, limit = 2+r.Intn(4), r.Intn(160)
	}
	t := dht.NewRouteTable(dht.NewNodeInfo(host, addr(r)), k, limit)
	var ids []string
	seen := map[string]bool{host: true}
	for len(ids) < 700 {
		id := withPrefix(r, host, r.Intn(160))
		if r.Intn(2) == 0 {
			id = withPrefix(r, host, r.Intn(6))
		}
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	addrs := map[string]string{}
	nodes := map[string]*dht.NodeInfo{}
	for _, id := range ids {
		a := addr(r)
		addrs[id] = a.String()
		nodes[id] = dht.NewNodeInfo(id, a)
	}
	okc := make([]int32, len(ids))
	var wg sync.WaitGroup
	const G = 8
	var adders int32 = G
	for g := 0; g < G; g++ {
		wg.Add(1)
		gr := h.Rand("stress", n, g)
		go func() {
			defer wg.Done()
			defer atomic.AddInt32(&adders, -1)
			for _, i := range gr.Perm(len(ids)) {
				// every contact offered by every goroutine, some as the same object
				x := nodes[ids[i]]
				if gr.Intn(2) == 0 {
					x = dht.NewNodeInfo(ids[i], x.Addr)
				}
				before := t.Size()
				err := t.AddNode(x)
				if err == nil {
					atomic.AddInt32(&okc[i], 1)
					f := t.Find(ids[i])
					if f == nil || f.Id != ids[i] || f.Addr.String() != addrs[ids[i]] {
						R.Violate("not-visible", "a contact just reported stored is not found", hx(ids[i]))
					}
				}
				if after := t.Size(); after < before {
					R.Violate("size-decreased", fmt.Sprintf("size went from %d to %d", before, after), nil)
				}
				R.EvalN(1)
			}
		}()
	}
	for g := 0; g < 3; g++ {
		wg.Add(1)
		gr := h.Rand("look", n, g)
		go func() {
			defer wg.Done()
			lastSize, lastList := 0, 0
			for atomic.LoadInt32(&adders) > 0 {
				switch gr.Intn(4) {
				case 0:
					if s := t.Size(); s < lastSize {
						R.Violate("size-decreased", fmt.Sprintf("size went from %d to %d", lastSize, s), nil)
					} else {
						lastSize = s
					}
				case 1:
					l := t.FindClosest(host, 1<<20)
					m := map[string]bool{}
					for _, x := range l {
						if x == nil || m[x.Id] || x.Id != host && addrs[x.Id] != x.Addr.String() {
							R.Violate("listing", "a concurrent listing holds an empty, repeated or foreign entry", nil)
							return
						}
						m[x.Id] = true
					}
					if len(l) < lastList {
						R.Violate("listing-shrank", fmt.Sprintf("a listing of %d contacts followed one of %d", len(l), lastList), nil)
					}
					lastList = len(l)
				case 2:
					id := ids[gr.Intn(len(ids))]
					if x := t.Find(id); x != nil && (x.Id != id || x.Addr.String() != addrs[id]) {
						R.Violate("find-wrong", "a concurrent lookup returned another contact", hx(id))
					}
				case 3:
					t.FindClosest(ids[gr.Intn(len(ids))], gr.Intn(20))
					t.Full()
				}
				R.Count("concurrent_reads", 1)
				time.Sleep(time.Duration(gr.Intn(300)) * time.Microsecond) // the adders need the lock too
			}
		}()
	}
	wg.Wait()
	stored := 0
	for i, id := range ids {
		c := atomic.LoadInt32(&okc[i])
		if c > 1 {
			R.Violate("stored-twice", fmt.Sprintf("adding one contact concurrently was reported successful %d times", c), hx(id))
		}
		f := t.Find(id)
		if (c > 0) != (f != nil) {
			R.Violate("final-table", fmt.Sprintf("additions reported successful: %d, found at the end: %v", c, f != nil), hx(id))
		}
		if c > 0 {
			stored++
		}
	}
	if s := t.Size(); s != stored+1 {
		R.Violate("final-size", fmt.Sprintf("final size %d, contacts stored %d", s, stored+1), nil)
	}
	if l := t.FindClosest(host, 1<<20); len(l) != stored+1 {
		R.Violate("final-listing", fmt.Sprintf("final listing has %d entries, contacts stored %d", len(l), stored+1), nil)
	}
	// whatever the order, each class with room to spare took everything offered
	perAll, perOk := map[int]int{}, map[int]int{}
	for i, id := range ids {
		p := prefixLen(id, host)
		perAll[p]++
		if okc[i] > 0 {
			perOk[p]++
		}
	}
	for p, c := range perOk {
		if p < limit && c > k {
			R.Violate("range-overfull", fmt.Sprintf("%d contacts share %d bits with the table's owner (k=%d)", c, p, k), nil)
		}
	}
	// with splits to spare, a class holds as many as it can
	if limit == 160 {
		for p, c := range perAll {
			want := c
			if want > k {
				want = k
			}
			if perOk[p] != want {
				R.Violate("range-underfull", fmt.Sprintf("class %d: %d offered, %d stored, k=%d", p, c, perOk[p], k), nil)
			}
		}
	}
	R.Count("stress_tables", 1)
	R.Count("stress_ms", int64(time.Since(began)/time.Millisecond))
}

// ---- D04

func d04() {
	R := h.R
	R.Rule = "lookups for targets in every prefix class (held ids, neighbours, the owner, random) and counts from 0 to beyond the table's size, on tables of many settings and fill states; plus single buckets; distinct = setting x target class x count relation x splits; oracle: results are held contacts, distinct, non-empty, contain the whole range of the target, and are at least min(count, held)"
	for n := 0; n < h.N(300, 9000) && R.Bad() < 4; n++ {
		r := h.Rand("d04", n)
		set := settings[n%len(settings)]
		t := newTable(r, set[0], set[1])
		held := map[string]string{t.host: t.m.addrs[t.host]}
		fill := r.Intn(300)
		for i := 0; i < fill; i++ {
			id := t.pick(r, r.Intn(6))
			if _, ok := held[id]; ok {
				continue
			}
			a := addr(r)
			got, want := t.add(id, a)
			if got != want {
				break
			}
			if got {
				held[id] = a.String()
			}
		}
		var ids []string
		for id := range held {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for q := 0; q < 60; q++ {
			var target string
			switch r.Intn(5) {
			case 0:
				target = ids[r.Intn(len(ids))]
			case 1:
				target = flip(ids[r.Intn(len(ids))], r.Intn(160))
			case 2:
				target = t.host
			case 3:
				target = withPrefix(r, t.host, r.Intn(160))
			default:
				p := t.m.last + r.Intn(3) - 1
				if p < 0 {
					p = 0
				}
				if p > 159 {
					p = 159
				}
				target = withPrefix(r, t.host, p)
			}
			k := r.Intn(len(held) + 5)
			switch r.Intn(4) {
			case 0:
				k = r.Intn(set[0]*3 + 1)
			case 1:
				k = []int{0, 1, len(held), len(held) + 1, len(held) - 1, 100000}[r.Intn(6)]
			}
			var res []*dht.NodeInfo
			if p, bad := h.Try(func() { res = t.t.FindClosest(target, k) }); bad {
				R.Violate("lookup-panic", fmt.Sprintf("looking up %x for %d contacts panicked: %v", target, k, p), t.witness())
				continue
			}
			cls := prefixLen(target, t.host)
			rel := "few"
			if k >= len(held) {
				rel = "all"
			} else if k > set[0] {
				rel = "some"
			}
			R.Eval(fmt.Sprintf("%v|%d|%s|%d", set, cls, rel, t.m.last))
			w := map[string]interface{}{"target": hx(target), "count": k, "held": len(held), "result": len(res), "shared_bits": cls, "table": t.witness()}
			seen := map[string]bool{}
			for _, x := range res {
				if x == nil {
					R.Violate("empty-entry", "a lookup returned an empty entry", w)
					continue
				}
				if seen[x.Id] {
					R.Violate("repeated-entry", "a lookup returned a contact twice", w)
				}
				seen[x.Id] = true
				if a, ok := held[x.Id]; !ok || a != x.Addr.String() {
					R.Violate("foreign-entry", "a lookup returned something the table does not hold", w)
				}
			}
			need := k
			if need > len(held) {
				need = len(held)
			}
			if len(res) < need {
				R.Violate("too-few", fmt.Sprintf("a lookup for %d contacts returned %d of %d held", k, len(res), len(held)), w)
			}
			for _, id := range t.m.bucket[t.m.index(target)] {
				if !seen[id] {
					R.Violate("range-missing", "a lookup left out a contact of the target's own range", w)
					break
				}
			}
			if n == 0 && q < 3 {
				R.Sample(map[string]interface{}{"target_shared_bits": cls, "count": k, "held": len(held), "returned": len(res)})
			}
			// what a caller does with a result must not reach the table
			for i := range res {
				res[i] = nil
			}
			if q%10 == 0 {
				for _, x := range t.all() {
					if x == nil {
						R.Violate("result-aliases-table", "overwriting a lookup's result emptied entries of the table", w)
						break
					}
				}
			}
		}
	}
	// single buckets
	for n := 0; n < h.N(400, 5000) && R.Bad() < 4; n++ {
		r := h.Rand("bucket", n)
		c := r.Intn(20)
		b := dht.NewBucket(c)
		var in []*dht.NodeInfo
		for i := r.Intn(25); i > 0; i-- {
			x := dht.NewNodeInfo(string(h.Bytes(r, 20)), addr(r))
			ok := b.Add(x)
			if ok != (len(in) < c) {
				R.Violate("bucket-add", fmt.Sprintf("adding contact %d to a bucket of %d reported %v", len(in)+1, c, ok), nil)
			}
			if ok {
				in = append(in, x)
			}
			if b.Size() != len(in) || b.Full() != (len(in) >= c) {
				R.Violate("bucket-size", fmt.Sprintf("a bucket of %d with %d contacts reports size %d, full %v", c, len(in), b.Size(), b.Full()), nil)
			}
		}
		var it []*dht.NodeInfo
		if p, bad := h.Try(func() { b.Iterator(func(x *dht.NodeInfo) { it = append(it, x) }) }); bad {
			R.Violate("iterator-panic", fmt.Sprint(p), nil)
		}
		cmp := func(what string, got []*dht.NodeInfo) {
			cnt := map[*dht.NodeInfo]int{}
			for _, x := range got {
				cnt[x]++
			}
			for _, x := range in {
				cnt[x]--
			}
			for _, d := range cnt {
				if d != 0 {
					R.Violate("bucket-"+what, fmt.Sprintf("%s of a bucket of %d with %d contacts visits something else (%d visited)", what, c, len(in), len(got)), nil)
					return
				}
			}
		}
		cmp("iteration", it)
		cmp("listing", b.All())
		for _, x := range in {
			if !b.Exist(x) {
				R.Violate("bucket-exist", "a stored contact is not reported to exist", nil)
			}
			if b.Exist(dht.NewNodeInfo(flip(x.Id, r.Intn(160)), x.Addr)) {
				R.Violate("bucket-exist", "a contact one bit away is reported to exist", nil)
			}
		}
		R.Eval(fmt.Sprintf("bucket|%d|%d", c, len(in)))
	}
}

// ---- D05 (encoding side)

func d05() {
	R := h.R
	R.Rule = "lists of 0 to 60 contacts and peers with 4-byte, mapped and IPv6 addresses, edge ports, ids of other lengths and absent addresses, encoded through the response constructors and the bencoder; distinct = kinds of the entries in order; oracle: byte-for-byte concatenation of the entries that have a compact form"
	r := h.Rand("d05")
	portOf := func() int {
		return []int{0, 1, 80, 255, 256, 257, 6881, 32767, 32768, 65280, 65534, 65535, r.Intn(65536)}[r.Intn(13)]
	}
	for n := 0; n < h.N(20000, 600000) && R.Bad() < 4; n++ {
		cnt := r.Intn(12)
		if r.Intn(20) == 0 {
			cnt = r.Intn(60)
		}
		odd := r.Intn(3) == 0
		var nodes []*dht.NodeInfo
		var addrs []*net.UDPAddr
		var wantN []byte
		var wantV []string
		shape := ""
		for i := 0; i < cnt; i++ {
			id := string(h.Bytes(r, 20))
			ip4 := h.Bytes(r, 4)
			if r.Intn(6) == 0 {
				ip4 = [][]byte{{0, 0, 0, 0}, {255, 255, 255, 255}, {127, 0, 0, 1}, {10, 0, 0, 255}, {1, 2, 3, 4}}[r.Intn(5)]
			}
			p := portOf()
			a := &net.UDPAddr{IP: net.IP(ip4), Port: p}
			kind := r.Intn(2)
			if odd {
				kind = r.Intn(7)
			}
			valid, validA := true, true
			switch kind {
			case 1:
				a.IP = net.IPv4(ip4[0], ip4[1], ip4[2], ip4[3]) // 16 bytes, mapped
			case 2:
				b := h.Bytes(r, 16)
				b[0] = 0x20
				a.IP = net.IP(b)
				valid, validA = false, false
			case 3:
				id = string(h.Bytes(r, []int{0, 1, 19, 21, 26, 40}[r.Intn(6)]))
				valid = false
			case 4:
				a = nil
				valid, validA = false, false
			case 5:
				a.IP = nil
				valid, validA = false, false
			case 6:
				a.IP = net.ParseIP("::1")
				a.Zone = "lo"
				valid, validA = false, false
			}
			shape += string(rune('0' + kind))
			six := append(append([]byte(nil), ip4...), byte(p>>8), byte(p))
			if valid {
				wantN = append(append(wantN, id...), six...)
			}
			if validA {
				wantV = append(wantV, string(six))
			}
			nodes = append(nodes, dht.NewNodeInfo(id, a))
			addrs = append(addrs, a)
		}
		own := string(h.Bytes(r, 20))
		tid := string(h.Bytes(r, 1+r.Intn(5)))
		w := map[string]interface{}{"kinds": shape, "want_nodes": h.Hex(wantN)}
		judge := func(what string, f func() misc.Dict, want func(b *ref.Val) string) {
			var raw string
			var err error
			p, bad := h.Try(func() { raw, err = misc.EncodeDict(f()) })
			if bad || err != nil {
				R.Violate(what+"-failed", fmt.Sprintf("encoding a %s reply failed: %v %v", what, p, err), w)
				return
			}
			v, k, st := ref.Parse(raw)
			if st != ref.OK || k != len(raw) {
				R.Violate(what+"-bencode", "the encoded "+what+" reply is not bencode", w)
				return
			}
			t, _ := v.Str("t")
			id, _ := v.Get("r").Str("id")
			if t != tid || id != own {
				R.Violate(what+"-ids", "the "+what+" reply carries another transaction or node id", w)
			}
			if d := want(v.Get("r")); d != "" {
				w["got"] = h.HexS(raw)
				R.Violate(what+"-compact", d, w)
			}
		}
		checkNodes := func(b *ref.Val) string {
			s, ok := b.Str("nodes")
			if !ok || s != string(wantN) {
				return fmt.Sprintf("the node list of %d contacts (kinds %s) is %d bytes and not the expected %d", cnt, shape, len(s), len(wantN))
			}
			return ""
		}
		judge("find_node", func() misc.Dict { return dht.WithFindNodeResponse(tid, own, nodes).RawData() }, checkNodes)
		judge("get_peers", func() misc.Dict { return dht.WithGetPeersNodesResponse(tid, own, "tok", nodes).RawData() }, func(b *ref.Val) string {
			if tok, _ := b.Str("token"); tok != "tok" {
				return "the token differs"
			}
			return checkNodes(b)
		})
		judge("get_peers values", func() misc.Dict { return dht.WithGetPeersValsResponse(tid, own, "tok", addrs).RawData() }, func(b *ref.Val) string {
			l := b.Get("values")
			if l == nil || l.Kind != ref.List || len(l.L) != len(wantV) {
				return fmt.Sprintf("the peer list of kinds %s does not have %d entries", shape, len(wantV))
			}
			for i, x := range l.L {
				if x.Kind != ref.Str || x.S != wantV[i] {
					return fmt.Sprintf("peer %d of kinds %s differs", i, shape)
				}
			}
			return ""
		})
		R.Eval(shape)
		R.Count("compact_contacts", int64(len(wantN)/26))
		R.Count("compact_peers", int64(len(wantV)))
		R.Count("entries_without_compact_form", int64(cnt-len(wantN)/26))
		if n < 3 {
			R.Sample(w)
		}
	}
	d05parse()
}

// parseList reads a compact contact list with the code under test.
var parseList func(s string) (ids []string, addrs []*net.UDPAddr)

// d05parse reads lists back through the reading side, when it could be built in
// (see export_on.go).
func d05parse() {
	R := h.R
	if parseList == nil {
		R.Unclear("the reading side of contact lists is not reachable under its name; it is judged through the running crawler only")
		return
	}
	r := h.Rand("d05parse")
	for n := 0; n < h.N(20000, 400000) && R.Bad() < 4; n++ {
		cnt := r.Intn(14)
		if r.Intn(30) == 0 {
			cnt = r.Intn(400)
		}
		var ids, addrs []string
		var b []byte
		for i := 0; i < cnt; i++ {
			id, a := h.Bytes(r, 20), h.Bytes(r, 6)
			switch r.Intn(6) {
			case 0: // runs of one byte at either end
				c := []byte{0, 0, 255, 32, 10, 13}[r.Intn(6)]
				for k := r.Intn(21); k > 0; k-- {
					id[20-k] = c
				}
			case 1:
				for k := r.Intn(21); k > 0; k-- {
					id[k-1] = 0
				}
			case 2:
				if i > 0 {
					copy(id, ids[r.Intn(i)])
				}
			}
			switch r.Intn(6) {
			case 0:
				a[4] = 0
			case 1:
				a[5] = 0
			case 2:
				a[0], a[1], a[2], a[3] = 0, 0, 0, 0
			case 3:
				a[4], a[5] = 0, 0
			}
			ids = append(ids, string(id))
			addrs = append(addrs, fmt.Sprintf("%d.%d.%d.%d:%d", a[0], a[1], a[2], a[3], int(a[4])<<8|int(a[5])))
			b = append(append(b, id...), a...)
		}
		frag := 0
		if r.Intn(2) == 0 {
			frag = r.Intn(26)
			b = append(b, h.Bytes(r, frag)...)
		}
		w := map[string]interface{}{"list": h.Hex(b)}
		var gi []string
		var ga []*net.UDPAddr
		if p, bad := h.Try(func() { gi, ga = parseList(string(b)) }); bad {
			R.Violate("read-raised", fmt.Sprintf("reading a list of %d contacts and %d more bytes raised %v", cnt, frag, p), w)
			continue
		}
		if len(gi) != cnt {
			R.Violate("read-count", fmt.Sprintf("a list of %d contacts and %d more bytes was read as %d contacts", cnt, frag, len(gi)), w)
			continue
		}
		for i := range gi {
			if gi[i] != ids[i] || ga[i] == nil || ga[i].String() != addrs[i] {
				R.Violate("read-wrong", fmt.Sprintf("contact %d of %d was read as %x at %v instead of %x at %s", i, cnt, gi[i], ga[i], ids[i], addrs[i]), w)
				break
			}
		}
		R.Eval(fmt.Sprintf("read|%d|%d", cnt, frag))
		R.Count("contacts_read_back", int64(cnt))
	}
}

// ---- D06

func d06() {
	R := h.R
	R.Rule = "generators started at edge and random values, run over several windows sequentially and from many goroutines; distinct = start x mode; oracle: any 65536 consecutive ids are pairwise distinct (sequentially: distance to the previous use; concurrently: exact counts per window), all of one non-zero length"
	r := h.Rand("d06")
	starts := []uint16{0, 1, 2, 255, 256, 999, 1000, 32767, 32768, 65279, 65280, 65533, 65534, 65535}
	for i := 0; i < h.N(10, 300); i++ {
		starts = append(starts, uint16(r.Intn(65536)))
	}
	for _, s := range starts {
		g := dht.NewTxIdGenerator(s)
		last := map[string]int{}
		length := -1
		total := 2*65536 + 1000
		for i := 0; i < total; i++ {
			id := g.Next()
			if length == -1 {
				length = len(id)
			}
			if len(id) == 0 || len(id) != length {
				R.Violate("length", fmt.Sprintf("id %d from start %d has length %d, the first had %d", i, s, len(id), length), nil)
				break
			}
			if j, ok := last[id]; ok && i-j < 65536 {
				R.Violate("repeats", fmt.Sprintf("id %q issued %d ids after its previous use (start %d)", id, i-j, s), map[string]int{"start": int(s), "first": j, "again": i})
				break
			}
			last[id] = i
		}
		R.Eval(fmt.Sprint("seq", s))
		R.Count("ids", int64(total))
	}
	R.Sample(map[string]interface{}{"starts": starts[:14], "windows": "2 x 65536 + 1000 ids each"})
	d06conc()
}

func d06conc() {
	R := h.R
	for n := 0; n < h.N(12, 200) && !R.Violated(); n++ {
		r := h.Rand("conc", n)
		start := uint16(r.Intn(65536))
		if n%3 == 0 {
			start = uint16(65535 - r.Intn(100))
		}
		g := dht.NewTxIdGenerator(start)
		G := []int{2, 4, 8, 16, 64}[r.Intn(5)]
		// several full windows; a barrier after each makes them consecutive
		for win := 0; win < 3; win++ {
			per := 65536 / G
			outs := make([][]string, G)
			var wg sync.WaitGroup
			for i := 0; i < G; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					o := make([]string, 0, per)
					for k := 0; k < per; k++ {
						o = append(o, g.Next())
					}
					outs[i] = o
				}(i)
			}
			wg.Wait()
			seen := make(map[string]bool, 65536)
			for _, o := range outs {
				for _, id := range o {
					if seen[id] {
						R.Violate("repeats-concurrent", fmt.Sprintf("id %q issued twice among 65536 ids asked for by %d goroutines (start %d)", id, G, start), nil)
						return
					}
					seen[id] = true
					if len(id) != len(outs[0][0]) {
						R.Violate("length", "ids differ in length", id)
					}
				}
			}
			R.Eval(fmt.Sprintf("conc%d|%d|%d", G, start, win))
			R.Count("ids_concurrent", int64(per*G))
		}
	}
}
