// Package ref is an independent reference for bencode: a strict encoder and a
// three-valued prefix parser (well formed, ill formed, unspecified).
package ref

import (
	"bytes"
	"math/big"
	"sort"
	"strconv"
)

type Kind int

const (
	Int Kind = iota
	Str
	List
	Dict
)

type Entry struct {
	K string
	V *Val
}

type Val struct {
	Kind Kind
	I    int64
	S    string
	L    []*Val
	D    []Entry // in wire order
}

func I(i int64) *Val           { return &Val{Kind: Int, I: i} }
func S(s string) *Val          { return &Val{Kind: Str, S: s} }
func L(l ...*Val) *Val         { return &Val{Kind: List, L: l} }
func D(kv ...Entry) *Val       { return &Val{Kind: Dict, D: kv} }
func E(k string, v *Val) Entry { return Entry{k, v} }

func (v *Val) Get(k string) *Val {
	if v == nil || v.Kind != Dict {
		return nil
	}
	for _, e := range v.D {
		if e.K == k {
			return e.V
		}
	}
	return nil
}

func (v *Val) Str(k string) (string, bool) {
	x := v.Get(k)
	if x == nil || x.Kind != Str {
		return "", false
	}
	return x.S, true
}

func (v *Val) Int(k string) (int64, bool) {
	x := v.Get(k)
	if x == nil || x.Kind != Int {
		return 0, false
	}
	return x.I, true
}

// Encode is the canonical encoding (keys ascending).
func Encode(v *Val) []byte {
	var b bytes.Buffer
	enc(&b, v, true)
	return b.Bytes()
}

// EncodeRaw keeps the wire order of dictionary entries.
func EncodeRaw(v *Val) []byte {
	var b bytes.Buffer
	enc(&b, v, false)
	return b.Bytes()
}

func encStr(b *bytes.Buffer, s string) {
	b.WriteString(strconv.Itoa(len(s)))
	b.WriteByte(':')
	b.WriteString(s)
}

func enc(b *bytes.Buffer, v *Val, sorted bool) {
	switch v.Kind {
	case Int:
		b.WriteByte('i')
		b.WriteString(strconv.FormatInt(v.I, 10))
		b.WriteByte('e')
	case Str:
		encStr(b, v.S)
	case List:
		b.WriteByte('l')
		for _, x := range v.L {
			enc(b, x, sorted)
		}
		b.WriteByte('e')
	case Dict:
		d := v.D
		if sorted {
			d = append([]Entry(nil), d...)
			sort.Slice(d, func(i, j int) bool { return d[i].K < d[j].K })
		}
		b.WriteByte('d')
		for _, e := range d {
			encStr(b, e.K)
			enc(b, e.V, sorted)
		}
		b.WriteByte('e')
	}
}

type Status int

const (
	OK      Status = iota
	Bad            // not bencode
	Unclear        // strict and lenient readers differ (duplicate keys, padded lengths)
)

const maxDepth = 6000

// Parse reads one value at the start of s.
func Parse(s string) (v *Val, n int, st Status) {
	p := &parser{s: s}
	v, n, ok := p.val(0, 0)
	if p.unclear {
		return v, n, Unclear
	}
	if !ok {
		return nil, 0, Bad
	}
	return v, n, OK
}

type parser struct {
	s       string
	unclear bool
}

func (p *parser) val(i, depth int) (*Val, int, bool) {
	if depth > maxDepth {
		p.unclear = true
		return nil, 0, false
	}
	if i >= len(p.s) {
		return nil, 0, false
	}
	switch c := p.s[i]; {
	case c == 'i':
		j := i + 1
		neg := false
		if j < len(p.s) && p.s[j] == '-' {
			neg = true
			j++
		}
		k := j
		for k < len(p.s) && p.s[k] >= '0' && p.s[k] <= '9' {
			k++
		}
		if k == j || k >= len(p.s) || p.s[k] != 'e' {
			return nil, 0, false
		}
		digits := p.s[j:k]
		if digits[0] == '0' && (len(digits) > 1 || neg) {
			return nil, 0, false
		}
		x, _ := new(big.Int).SetString(p.s[i+1:k], 10)
		if !x.IsInt64() {
			return nil, 0, false
		}
		return I(x.Int64()), k + 1, true
	case c >= '0' && c <= '9':
		k := i
		for k < len(p.s) && p.s[k] >= '0' && p.s[k] <= '9' {
			k++
		}
		if k >= len(p.s) || p.s[k] != ':' {
			return nil, 0, false
		}
		x, _ := new(big.Int).SetString(p.s[i:k], 10)
		if !x.IsInt64() || x.Int64() > int64(len(p.s)-k-1) {
			return nil, 0, false
		}
		if p.s[i] == '0' && k-i > 1 {
			p.unclear = true
		}
		n := int(x.Int64())
		return S(p.s[k+1 : k+1+n]), k + 1 + n, true
	case c == 'l':
		v := &Val{Kind: List}
		j := i + 1
		for {
			if j >= len(p.s) {
				return nil, 0, false
			}
			if p.s[j] == 'e' {
				return v, j + 1, true
			}
			x, n, ok := p.val(j, depth+1)
			if !ok {
				return nil, 0, false
			}
			v.L = append(v.L, x)
			j = n
		}
	case c == 'd':
		v := &Val{Kind: Dict}
		seen := map[string]bool{}
		j := i + 1
		for {
			if j >= len(p.s) {
				return nil, 0, false
			}
			if p.s[j] == 'e' {
				return v, j + 1, true
			}
			k, n, ok := p.val(j, depth+1)
			if !ok || k.Kind != Str {
				return nil, 0, false
			}
			x, n, ok := p.val(n, depth+1)
			if !ok {
				return nil, 0, false
			}
			if seen[k.S] {
				p.unclear = true
			}
			seen[k.S] = true
			v.D = append(v.D, Entry{k.S, x})
			j = n
		}
	}
	return nil, 0, false
}

// Equal compares values; dictionaries as maps.
func Equal(a, b *Val) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case Int:
		return a.I == b.I
	case Str:
		return a.S == b.S
	case List:
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !Equal(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	}
	if len(a.D) != len(b.D) {
		return false
	}
	m := make(map[string]*Val, len(a.D))
	for _, e := range a.D {
		m[e.K] = e.V
	}
	for _, e := range b.D {
		x, ok := m[e.K]
		if !ok || !Equal(x, e.V) {
			return false
		}
	}
	return true
}

// Sorted tells whether every dictionary is in strictly ascending key order.
func Sorted(v *Val) bool {
	switch v.Kind {
	case List:
		for _, x := range v.L {
			if !Sorted(x) {
				return false
			}
		}
	case Dict:
		for i, e := range v.D {
			if i > 0 && v.D[i-1].K >= e.K || !Sorted(e.V) {
				return false
			}
		}
	}
	return true
}
