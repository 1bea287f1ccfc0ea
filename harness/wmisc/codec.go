package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/GalaIO/P2Pcrawler/misc"

	"verifharness/h"
	"verifharness/ref"
)

// ---- values

func genStr(r *rand.Rand, max int) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		// looks like bencode
		w := []string{"e", "i1e", "l", "d", "3:abc", "0:", ":", "de", "le", "-0", "i-1e", "9:", "12:"}
		return w[r.Intn(len(w))]
	case 2:
		return strings.Repeat(string(rune('0'+r.Intn(10))), r.Intn(12))
	case 3:
		n := r.Intn(40)
		b := make([]byte, n)
		for i := range b {
			b[i] = "eild:0123-"[r.Intn(10)]
		}
		return string(b)
	default:
		return string(h.Bytes(r, r.Intn(max)))
	}
}

func genInt(r *rand.Rand) int64 {
	switch r.Intn(7) {
	case 0:
		return 0
	case 1:
		x := []int64{1, -1, 9, 10, -10, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, math.MinInt32, 1 << 32, 255, 256, 65535, 65536, -65536}
		return x[r.Intn(len(x))]
	case 2:
		return int64(r.Uint64())
	case 3:
		x := int64(math.Pow10(r.Intn(18)))
		return x - int64(r.Intn(2))
	default:
		return int64(r.Intn(200000)) - 100000
	}
}

func genVal(r *rand.Rand, budget *int, depth int) *ref.Val {
	*budget--
	k := r.Intn(10)
	if depth <= 0 || *budget <= 0 {
		k = r.Intn(5)
	}
	switch {
	case k < 2:
		return ref.I(genInt(r))
	case k < 5:
		return ref.S(genStr(r, 30))
	case k < 7:
		v := &ref.Val{Kind: ref.List}
		for n := r.Intn(6); n > 0 && *budget > 0; n-- {
			v.L = append(v.L, genVal(r, budget, depth-1))
		}
		return v
	default:
		return genDict(r, budget, depth)
	}
}

func genDict(r *rand.Rand, budget *int, depth int) *ref.Val {
	v := &ref.Val{Kind: ref.Dict}
	seen := map[string]bool{}
	for n := r.Intn(6); n > 0 && *budget > 0; n-- {
		k := genStr(r, 12)
		if seen[k] {
			continue
		}
		seen[k] = true
		v.D = append(v.D, ref.E(k, genVal(r, budget, depth-1)))
	}
	return v
}

func toMisc(v *ref.Val) interface{} {
	switch v.Kind {
	case ref.Int:
		return int(v.I)
	case ref.Str:
		return v.S
	case ref.List:
		l := make(misc.List, 0, len(v.L))
		for _, x := range v.L {
			l = append(l, toMisc(x))
		}
		return l
	}
	d := make(misc.Dict, len(v.D))
	for _, e := range v.D {
		d[e.K] = toMisc(e.V)
	}
	return d
}

// same compares a decoded value with the reference value.
func same(x interface{}, v *ref.Val) bool {
	switch t := x.(type) {
	case int:
		return v.Kind == ref.Int && int64(t) == v.I
	case string:
		return v.Kind == ref.Str && t == v.S
	case misc.List:
		if v.Kind != ref.List || t == nil || len(t) != len(v.L) {
			return false
		}
		for i := range t {
			if !same(t[i], v.L[i]) {
				return false
			}
		}
		return true
	case misc.Dict:
		if v.Kind != ref.Dict || t == nil || len(t) != len(v.D) {
			return false
		}
		for _, e := range v.D {
			y, ok := t[e.K]
			if !ok || !same(y, e.V) {
				return false
			}
		}
		return true
	}
	return false
}

func depthOf(v *ref.Val) int {
	d := 0
	for _, x := range v.L {
		if n := depthOf(x); n > d {
			d = n
		}
	}
	for _, e := range v.D {
		if n := depthOf(e.V); n > d {
			d = n
		}
	}
	if v.Kind == ref.List || v.Kind == ref.Dict {
		d++
	}
	return d
}

func show(v *ref.Val) string {
	s := string(ref.Encode(v))
	if len(s) > 300 {
		s = s[:300] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return fmt.Sprintf("%q", s)
}

// encode through the API function that takes v's type.
func encode(v *ref.Val) (s string, err error, p interface{}, panicked bool) {
	x := toMisc(v)
	p, panicked = h.Try(func() {
		switch t := x.(type) {
		case int:
			s, err = misc.EncodeInteger(t)
		case string:
			s, err = misc.EncodeString(t)
		case misc.List:
			s, err = misc.EncodeSlice(t)
		case misc.Dict:
			s, err = misc.EncodeDict(t)
		}
	})
	if !panicked && !same(x, v) {
		h.R.Violate("encode-mutates", "encoding changed the value it was given", show(v))
	}
	return
}

// values yields the deterministic case list of the codec checks.
func values(f func(name string, v *ref.Val)) {
	r := h.Rand("values")
	for _, i := range []int64{0, 1, -1, 9, 10, 99, 100, math.MaxInt64, math.MinInt64, -9, -10} {
		f("int", ref.I(i))
		f("int in list", ref.L(ref.I(i)))
		f("int in dict", ref.D(ref.E("k", ref.I(i))))
	}
	for n := 0; n < 130; n++ {
		f("string length", ref.S(strings.Repeat("x", n)))
		f("string length", ref.D(ref.E(strings.Repeat("e", n), ref.S(strings.Repeat(":", n)))))
	}
	for b := 0; b < 256; b++ {
		s := string([]byte{byte(b)})
		f("byte", ref.S(s))
		f("byte", ref.L(ref.S(s), ref.S(s+s), ref.I(int64(b))))
		f("byte key", ref.D(ref.E(s, ref.S(s)), ref.E(s+"\x00", ref.I(1)), ref.E("", ref.L())))
	}
	f("empty", ref.L())
	f("empty", ref.D())
	f("empty", ref.L(ref.L(), ref.D(), ref.S(""), ref.L(ref.D())))
	for _, n := range []int{1000, 10000, 65535, 65536, 100000, 1 << 20, 1<<20 + 1, h.N(3<<20, 17<<20) + 7} {
		f("long string", ref.S(string(h.Bytes(r, n))))
		f("long string", ref.D(ref.E("a", ref.S(string(h.Bytes(r, n)))), ref.E(string(h.Bytes(r, n/10)), ref.I(5))))
	}
	for _, n := range []int{10, 100, 500, 1000, h.N(4000, 5500)} {
		v := ref.S("x")
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v = ref.L(v)
			} else {
				v = ref.D(ref.E("k", v))
			}
		}
		f("deep", v)
		w := &ref.Val{Kind: ref.List}
		for i := 0; i < n; i++ {
			w = &ref.Val{Kind: ref.List, L: []*ref.Val{w, ref.I(int64(i))}}
		}
		f("deep", w)
	}
	for _, n := range []int{15, 16, 17, 31, 32, 33, 255, 256, 257, 5000} {
		l := &ref.Val{Kind: ref.List}
		d := &ref.Val{Kind: ref.Dict}
		for i := 0; i < n; i++ {
			l.L = append(l.L, ref.I(int64(i)))
			d.D = append(d.D, ref.E(fmt.Sprintf("key%05d", i*7919%100000), ref.S(fmt.Sprint(i))))
		}
		f("wide list", l)
		f("wide dict", d)
	}
	l := &ref.Val{Kind: ref.List}
	for i := 0; i < 20000; i++ {
		l.L = append(l.L, ref.S(fmt.Sprint(i%100)))
	}
	f("wide list", l)
	for i := 0; i < h.N(40000, 1500000); i++ {
		budget := 1 + r.Intn(60)
		v := genVal(r, &budget, 1+r.Intn(8))
		f("random", v)
	}
}

func c01() {
	R := h.R
	R.Rule = "values built from ints, byte strings, lists and dicts (fixed edge lists, then seeded random trees); non-trivial = a container with at least one element, or an edge value; oracle: encode without error, each full decoder and the prefix decoder (with suffixes) return an equal tree and the exact length; values with one foreign leaf at every position must be refused"
	r := h.Rand("suffix")
	suffixes := []string{"", "e", "i1e", "0:", "d", "\x00", "5:abc", "1", ":"}
	values(func(name string, v *ref.Val) {
		key := ""
		enc, err, p, panicked := encode(v)
		want := len(ref.Encode(v))
		if want > 2 {
			key = string(ref.Encode(v))
		}
		R.Eval(key)
		R.Max("max_depth", int64(depthOf(v)))
		R.Max("max_encoded_bytes", int64(want))
		if panicked {
			R.Violate("encode-panic", fmt.Sprintf("encoding panicked: %v", p), show(v))
			return
		}
		if err != nil {
			R.Violate("encode-refused", fmt.Sprintf("encoding a valid value failed: %v", err), show(v))
			return
		}
		if name == "deep" || name == "random" && len(v.D) > 2 {
			R.Sample(map[string]string{"case": name, "value": show(v), "encoded": h.HexS(enc)})
		}
		check := func(what string, got interface{}, err error, p interface{}, panicked bool) {
			if panicked {
				R.Violate("decode-panic", what+fmt.Sprintf(" panicked on encoder output: %v", p), map[string]string{"value": show(v), "encoded": h.HexS(enc)})
			} else if err != nil {
				R.Violate("roundtrip-error", what+fmt.Sprintf(" refused encoder output: %v", err), map[string]string{"value": show(v), "encoded": h.HexS(enc)})
			} else if !same(got, v) {
				R.Violate("roundtrip-differs", what+" returned a different value", map[string]string{"value": show(v), "encoded": h.HexS(enc), "got": fmt.Sprintf("%.300q", fmt.Sprint(got))})
			}
			R.Count("round_trips", 1)
		}
		var got interface{}
		var derr error
		dec := func(what string, f func()) {
			p, pp := h.Try(f)
			check(what, got, derr, p, pp)
		}
		switch v.Kind {
		case ref.Int:
			dec("DecodeInteger", func() { got, derr = misc.DecodeInteger(enc) })
		case ref.Str:
			dec("DecodeString", func() { got, derr = misc.DecodeString(enc) })
		case ref.List:
			dec("DecodeSlice", func() { got, derr = misc.DecodeSlice(enc) })
		case ref.Dict:
			dec("DecodeDict", func() { got, derr = misc.DecodeDict(enc) })
			for _, sfx := range []string{"", suffixes[r.Intn(len(suffixes))], string(h.Bytes(r, r.Intn(20)))} {
				n := -1
				dec("DecodeDictNoLimit", func() { got, n, derr = misc.DecodeDictNoLimit(enc + sfx) })
				if derr == nil && n != len(enc) {
					R.Violate("consumed", fmt.Sprintf("prefix decoder reports %d consumed bytes, the encoding has %d", n, len(enc)), map[string]string{"value": show(v), "suffix": h.HexS(sfx)})
				}
			}
		}
		// inside a list, behind and before other items
		if want < 2000 && r.Intn(4) == 0 {
			w := ref.L(ref.S("a"), v, ref.I(7), v)
			e2, err, _, pp := encode(w)
			if pp || err != nil {
				R.Violate("encode-refused", "encoding a list around a valid value failed", show(w))
				return
			}
			v0, v1 := v, enc
			v, enc = w, e2
			dec("DecodeSlice", func() { got, derr = misc.DecodeSlice(e2) })
			v, enc = v0, v1
		}
	})
	c01refuse()
	codecTogether("encode")
}

type opaque struct{ A int }

// a foreign leaf, at any position of a valid tree, must be refused
func c01refuse() {
	R := h.R
	r := h.Rand("refuse")
	var nilPtr *int
	type named int
	foreign := []struct {
		name string
		v    interface{}
	}{
		{"nil", nil}, {"float", 1.5}, {"bool", true}, {"int64", int64(5)}, {"uint", uint(5)}, {"int8", int8(1)},
		{"bytes", []byte("abc")}, {"struct", opaque{1}}, {"pointer", &opaque{2}}, {"nil pointer", nilPtr},
		{"error", fmt.Errorf("x")}, {"rune", 'x'}, {"func", func() {}}, {"chan", make(chan int)}, {"array", [2]int{1, 2}}, {"strings", []string{"a"}}, {"complex", complex(1, 2)},
	}
	for i := 0; i < h.N(6000, 100000); i++ {
		fo := foreign[i%len(foreign)]
		budget := 1 + r.Intn(25)
		var place func(depth int) interface{}
		path := ""
		place = func(depth int) interface{} {
			if depth == 0 {
				return fo.v
			}
			if r.Intn(2) == 0 {
				l := misc.List{}
				for j := r.Intn(4); j > 0; j-- {
					l = append(l, toMisc(genVal(r, &budget, 2)))
				}
				at := r.Intn(len(l) + 1)
				path += fmt.Sprintf("[%d]", at)
				l = append(l, nil)
				copy(l[at+1:], l[at:])
				l[at] = place(depth - 1)
				return l
			}
			d := toMisc(genDict(r, &budget, 2)).(misc.Dict)
			k := genStr(r, 8)
			path += fmt.Sprintf("{%q}", k)
			d[k] = place(depth - 1)
			return d
		}
		v := place(1 + r.Intn(5))
		var s string
		var err error
		p, panicked := h.Try(func() {
			switch t := v.(type) {
			case misc.List:
				s, err = misc.EncodeSlice(t)
			case misc.Dict:
				s, err = misc.EncodeDict(t)
			}
		})
		R.Eval("foreign " + fo.name + path)
		R.Count("refusals_judged", 1)
		w := map[string]string{"leaf": fo.name, "path": path}
		if panicked {
			R.Violate("encode-panic-foreign", fmt.Sprintf("encoding a value containing %s panicked: %v", fo.name, p), w)
		} else if err == nil {
			R.Violate("foreign-accepted", fmt.Sprintf("a value containing %s was encoded without error", fo.name), w)
		} else if s != "" {
			R.Violate("partial-text", "an encoding error came with partial text", w)
		}
	}
}

// ---- C03

func c03() {
	R := h.R
	R.Rule = "the value list of C01; non-trivial = distinct canonical text longer than 2 bytes; oracle: byte comparison with an independent canonical encoder, and equality of repeated encodings (copies built in different insertion orders)"
	r := h.Rand("order")
	values(func(name string, v *ref.Val) {
		want := string(ref.Encode(v))
		key := ""
		if len(want) > 2 {
			key = want
		}
		R.Eval(key)
		enc, err, p, panicked := encode(v)
		if panicked || err != nil {
			R.Violate("encode-refused", fmt.Sprintf("encoding a valid value failed: %v %v", err, p), show(v))
			return
		}
		judge := func(enc string) {
			if enc == want {
				R.Count("byte_identical", 1)
				return
			}
			w := map[string]string{"value": show(v), "want": h.HexS(want), "got": h.HexS(enc)}
			got, n, st := ref.Parse(enc)
			if st == ref.OK && n == len(enc) && ref.Equal(got, v) && string(ref.EncodeRaw(got)) == enc && !ref.Sorted(got) {
				// everything canonical but the order of entries
				R.Count("entry_order_differs", 1)
				R.Violate("dict-entry-order", "dictionary entries are not in ascending key order; everything else is canonical", w)
				return
			}
			if depthOf(v) > 5900 && st == ref.Unclear {
				return
			}
			R.Violate("not-canonical", "the encoding differs from the canonical one by more than the order of dictionary entries", w)
		}
		judge(enc)
		if name == "random" {
			R.Sample(map[string]string{"value": show(v), "encoded": h.HexS(enc)})
		}
		// equal value, other insertion order
		w := shuffled(v, r)
		e2, err, _, pp := encode(w)
		if pp || err != nil {
			R.Violate("encode-refused", "encoding an equal value failed", show(v))
			return
		}
		if e2 != enc {
			if len(e2) == len(enc) && hasMulti(v) {
				R.Count("entry_order_unstable", 1)
				judge(e2)
			} else {
				R.Violate("not-deterministic", "equal values encode to different texts", map[string]string{"value": show(v), "first": h.HexS(enc), "second": h.HexS(e2)})
			}
		}
	})
	codecTogether("encode")
}

func hasMulti(v *ref.Val) bool {
	if len(v.D) > 1 {
		return true
	}
	for _, x := range v.L {
		if hasMulti(x) {
			return true
		}
	}
	for _, e := range v.D {
		if hasMulti(e.V) {
			return true
		}
	}
	return false
}

func shuffled(v *ref.Val, r *rand.Rand) *ref.Val {
	switch v.Kind {
	case ref.List:
		w := &ref.Val{Kind: ref.List}
		for _, x := range v.L {
			w.L = append(w.L, shuffled(x, r))
		}
		return w
	case ref.Dict:
		w := &ref.Val{Kind: ref.Dict}
		for _, i := range r.Perm(len(v.D)) {
			w.D = append(w.D, ref.E(v.D[i].K, shuffled(v.D[i].V, r)))
		}
		return w
	}
	return v
}

// ---- C02

type decoder struct {
	name   string
	kind   ref.Kind
	prefix bool
	f      func(s string) (interface{}, int, error)
}

var decoders = []decoder{
	{"DecodeInteger", ref.Int, false, func(s string) (interface{}, int, error) { v, err := misc.DecodeInteger(s); return v, len(s), err }},
	{"DecodeString", ref.Str, false, func(s string) (interface{}, int, error) { v, err := misc.DecodeString(s); return v, len(s), err }},
	{"DecodeSlice", ref.List, false, func(s string) (interface{}, int, error) { v, err := misc.DecodeSlice(s); return v, len(s), err }},
	{"DecodeDict", ref.Dict, false, func(s string) (interface{}, int, error) { v, err := misc.DecodeDict(s); return v, len(s), err }},
	{"DecodeDictNoLimit", ref.Dict, true, misc2prefix},
}

func misc2prefix(s string) (interface{}, int, error) {
	v, n, err := misc.DecodeDictNoLimit(s)
	return v, n, err
}

func c02judge(s string, big bool) {
	R := h.R
	want, n, st := ref.Parse(s)
	for i := range decoders {
		d := &decoders[i]
		var got interface{}
		var gn int
		var err error
		p, panicked := h.Try(func() { got, gn, err = d.f(s) })
		w := map[string]string{"decoder": d.name, "input": h.HexS(s)}
		if panicked {
			R.Violate("panic:"+d.name, fmt.Sprintf("%s panicked: %v", d.name, p), w)
			continue
		}
		if st == ref.Unclear || big {
			R.Count("verdict_only_no_crash", 1)
			continue
		}
		good := st == ref.OK && want.Kind == d.kind && (d.prefix || n == len(s))
		if good {
			R.Count("expected_value", 1)
			if err != nil {
				R.Violate("refused:"+d.name, fmt.Sprintf("%s refused well-formed input: %v", d.name, err), w)
			} else if !same(got, want) {
				R.Violate("wrong:"+d.name, fmt.Sprintf("%s returned another value: %.200v", d.name, got), w)
			} else if d.prefix && gn != n {
				R.Violate("consumed", fmt.Sprintf("prefix decoder consumed %d, the value occupies %d", gn, n), w)
			}
			continue
		}
		R.Count("expected_error", 1)
		if err == nil {
			R.Violate("accepted:"+d.name, fmt.Sprintf("%s accepted ill-formed input (value %.200v)", d.name, got), w)
		}
	}
}

func c02() {
	R := h.R
	R.Rule = "every string over {i,l,d,e,:,0,1,2,-} up to a bound (exhaustive), every truncation and thousands of mutations of valid encodings, a list of malformed classics in every context, and very deep or huge inputs; distinct = distinct input; oracle: independent three-valued reference parser for all five decoders"
	// exhaustive small strings
	alpha := "ilde:012-"
	max := h.N(6, 7)
	buf := make([]byte, max)
	var total int64
	var rec func(i, n int)
	rec = func(i, n int) {
		if i == n {
			c02judge(string(buf[:n]), false)
			total++
			return
		}
		for j := 0; j < len(alpha); j++ {
			buf[i] = alpha[j]
			rec(i+1, n)
		}
	}
	for n := 0; n <= max; n++ {
		rec(0, n)
	}
	R.EvalN(total)
	R.DistinctN(total)
	R.Count("exhaustive_short_strings", total)
	// every two bytes
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			s := string([]byte{byte(a), byte(b)})
			c02judge(s, false)
			R.Eval(s)
		}
	}
	nums := []string{"", "-", "--", "-0", "00", "01", "-01", "+1", "+", "1-", "1-2", " 1", "1 ", "0x1", "1.0", "1_0", "1e1",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616",
		"99999999999999999999999999", "0", "-1", "10", "\x00", "١"}
	lens := []string{"", "-1", "+1", "0", "1", "2", "3", "4", "9223372036854775807", "9223372036854775808", "9223372036854775800", "18446744073709551615", "18446744073709551616", "4294967296", "2147483648", "99999999999999999999", " 1", "1 ", "0x1", "1.0", "1_0", "１"}
	ctx := []string{"%s", "l%se", "d1:a%se", "d%s1:ae", "l%s", "d1:a%s", "ll%see", "d1:ad1:b%see", "l1:a%s1:be", "%s1:a", "d1:a%s1:bi1ee", "%se", "d%se", "d%si1ee"}
	for _, c := range ctx {
		for _, x := range nums {
			for _, s := range []string{"i" + x + "e", "i" + x} {
				in := strings.Replace(c, "%s", s, 1)
				c02judge(in, false)
				R.Eval(in)
			}
		}
		for _, x := range lens {
			for _, t := range []string{":", ":a", ":abc", ":abcd", "abc", "", ":::", "::", ":e", ":i1e"} {
				in := strings.Replace(c, "%s", x+t, 1)
				c02judge(in, false)
				R.Eval(in)
			}
		}
	}
	// truncations and mutations
	r := h.Rand("mutate")
	for i := 0; i < h.N(6000, 150000); i++ {
		budget := 1 + r.Intn(20)
		var v *ref.Val
		if i%3 == 0 {
			v = genDict(r, &budget, 4)
		} else {
			v = genVal(r, &budget, 5)
		}
		raw := string(ref.EncodeRaw(v))
		if len(raw) > 400 {
			raw = raw[:400]
		}
		c02judge(raw, false)
		R.Eval(raw)
		for k := 0; k < len(raw); k++ {
			if len(raw) > 60 && r.Intn(4) > 0 {
				continue
			}
			c02judge(raw[:k], false)
			R.Eval(raw[:k])
			R.Count("truncations", 1)
		}
		for m := 0; m < 8; m++ {
			b := []byte(raw)
			for n := 1 + r.Intn(3); n > 0 && len(b) > 0; n-- {
				at := r.Intn(len(b))
				switch r.Intn(6) {
				case 0:
					b[at] = byte(r.Intn(256))
				case 1:
					b[at] = "ilde:0123456789-+ "[r.Intn(18)]
				case 2:
					b = append(b[:at], b[at+1:]...)
				case 3:
					b = append(b[:at], append([]byte{"ilde:0123456789-+"[r.Intn(17)]}, b[at:]...)...)
				case 4:
					n := at + 1 + r.Intn(len(b)-at)
					b = append(b[:n:n], b[at:]...)
				case 5:
					at2 := r.Intn(len(b))
					b[at], b[at2] = b[at2], b[at]
				}
			}
			c02judge(string(b), false)
			R.Eval(string(b))
			R.Count("mutations", 1)
			if m == 0 && i%1500 == 0 {
				R.Sample(map[string]string{"valid": h.HexS(raw), "mutated": h.HexS(string(b))})
			}
		}
		// trailing bytes
		for _, sfx := range []string{"e", raw, "x", "0:", "\x00"} {
			c02judge(raw+sfx, false)
			R.Eval(raw + sfx)
		}
	}
	// large valid inputs and their damage
	for _, n := range []int{1000, 30000, 300000} {
		v := ref.D(ref.E("a", ref.S(string(h.Bytes(r, n)))), ref.E("b", ref.L(ref.I(1), ref.S(strings.Repeat("e", n)))))
		raw := string(ref.Encode(v))
		c02judge(raw, false)
		c02judge(raw[:len(raw)-1], false)
		c02judge(raw+"e", false)
		c02judge(raw[:len(raw)/2], false)
		R.EvalN(4)
	}
	codecTogether("decode")
	// very deep input must not take the process down
	sizes := []int{1200, 100000, 1 << 20, h.N(12<<20, 48<<20)}
	for _, n := range sizes {
		for _, unit := range []string{"l", "d1:a", "ld1:a", "d0:"} {
			k := n / len(unit)
			for _, tail := range []string{"", strings.Repeat("e", k), "i1e", "x"} {
				s := strings.Repeat(unit, k) + tail
				h.Journal("deep input: %q repeated %d times, tail %d bytes", unit, k, len(tail))
				c02judge(s, true)
				if unit == "l" {
					c02judge("d1:a"+s, true)
				}
				R.Eval(fmt.Sprintf("deep %s %d %d", unit, k, len(tail)))
				R.Count("deep_inputs", 1)
				R.Max("deepest_nesting", int64(k))
			}
		}
	}
}

// ---- C04

func c04() {
	R := h.R
	R.Rule = "random messages (values of all decoded types plus absent, nil and foreign values) read through every accessor with present, absent, case-changed and out-of-range keys and indexes; distinct = accessor x kind of stored value x position; oracle: the expected value or kind of failure derived from the message itself"
	r := h.Rand("acc")
	keys := []string{"a", "A", "t", "id", "", "\x00", "info_hash", "Info_Hash", "e", "1:a"}
	mk := func() (interface{}, string) {
		budget := 6
		switch r.Intn(10) {
		case 9:
			return nil, "nil"
		case 0:
			return int(genInt(r)), "int"
		case 1:
			return genStr(r, 20), "string"
		case 2:
			return toMisc(ref.L(genVal(r, &budget, 2))), "list"
		case 3:
			return toMisc(genDict(r, &budget, 2)), "dict"
		case 4:
			return 0, "int"
		case 5:
			return "", "string"
		case 6:
			return misc.List{}, "list"
		case 7:
			return misc.Dict{}, "dict"
		default:
			o := []interface{}{1.5, true, int64(3), []byte("x")}
			return o[r.Intn(len(o))], "other"
		}
	}
	strict := func(what string, kind, want string, stored interface{}, present bool, f func() interface{}, w interface{}) {
		var got interface{}
		p, panicked := h.Try(func() { got = f() })
		R.Eval(what + "/" + kind + fmt.Sprint(present))
		R.Count("strict_reads", 1)
		ok := present && (want == "any" || kind == want)
		switch {
		case ok && panicked:
			R.Violate("strict-raised:"+what, fmt.Sprintf("%s raised %v although the value is there", what, p), w)
		case ok && fmt.Sprintf("%#v", got) != fmt.Sprintf("%#v", stored):
			R.Violate("strict-wrong:"+what, fmt.Sprintf("%s returned %.100v instead of %.100v", what, got, stored), w)
		case !ok && !panicked:
			R.Violate("strict-silent:"+what, fmt.Sprintf("%s returned %.100v although no such value is there", what, got), w)
		case !ok:
			e, isErr := p.(*misc.Error)
			if !isErr || e == nil {
				R.Violate("strict-fault:"+what, fmt.Sprintf("%s failed with %T %v instead of the library's error", what, p, p), w)
			} else if t := e.Error(); strings.Contains(t, "goroutine ") || strings.Contains(t, ".go:") {
				R.Violate("error-leaks", "an accessor's error text carries a stack trace", w)
			}
		}
	}
	snap := func(x interface{}) string { return fmt.Sprintf("%#v", x) }
	for i := 0; i < h.N(20000, 400000); i++ {
		d := misc.Dict{}
		kinds := map[string]string{}
		for _, k := range keys {
			if r.Intn(3) > 0 {
				v, kind := mk()
				d[k] = v
				kinds[k] = kind
			}
		}
		small := len(d) < 4
		before := ""
		if small {
			before = sortedDump(d)
		}
		k := keys[r.Intn(len(keys))]
		stored, present := d[k]
		w := map[string]string{"key": fmt.Sprintf("%q", k), "stored": fmt.Sprintf("%.200v", stored), "kind": kinds[k]}
		if i < 4 {
			R.Sample(w)
		}
		strict("Dict.GetInteger", kinds[k], "int", stored, present, func() interface{} { return d.GetInteger(k) }, w)
		strict("Dict.GetString", kinds[k], "string", stored, present, func() interface{} { return d.GetString(k) }, w)
		strict("Dict.GetList", kinds[k], "list", stored, present, func() interface{} { return d.GetList(k) }, w)
		strict("Dict.GetDict", kinds[k], "dict", stored, present, func() interface{} { return d.GetDict(k) }, w)
		strict("Dict.GetVal", kinds[k], "any", stored, present, func() interface{} { return d.GetVal(k) }, w)
		if d.Exist(k) != present {
			R.Violate("dict-exist", "Exist disagrees with the message", w)
		}
		def := func(what string, want interface{}, f func() interface{}) {
			var got interface{}
			p, panicked := h.Try(func() { got = f() })
			R.Eval(what + "/" + kinds[k] + fmt.Sprint(present))
			R.Count("default_reads", 1)
			if panicked {
				R.Violate("default-raised:"+what, fmt.Sprintf("%s raised %v", what, p), w)
			} else if snap(got) != snap(want) {
				R.Violate("default-wrong:"+what, fmt.Sprintf("%s returned %.100v, expected %.100v", what, got, want), w)
			}
		}
		defInt, defStr := int(genInt(r)), genStr(r, 10)
		wantI, wantS, wantV := interface{}(defInt), interface{}(defStr), interface{}("dflt")
		if kinds[k] == "int" {
			wantI = stored
		}
		if kinds[k] == "string" {
			wantS = stored
		}
		if present {
			wantV = stored
		}
		def("GetIntegerOrDefault", wantI, func() interface{} { return d.GetIntegerOrDefault(k, defInt) })
		def("GetStringOrDefault", wantS, func() interface{} { return d.GetStringOrDefault(k, defStr) })
		def("GetValOrDefault", wantV, func() interface{} { return d.GetValOrDefault(k, "dflt") })
		if small && sortedDump(d) != before {
			R.Violate("dict-modified", "reading modified the message", w)
		}

		// lists
		n := r.Intn(6)
		l := make(misc.List, 0, n+r.Intn(5))
		lk := []string{}
		for j := 0; j < n; j++ {
			v, kind := mk()
			l = append(l, v)
			lk = append(lk, kind)
		}
		lb := snap(l)
		idx := []int{0, 1, n - 1, n, n + 1, -1, -2, math.MinInt64, math.MaxInt64, cap(l) - 1, cap(l), r.Intn(8) - 1}
		j := idx[r.Intn(len(idx))]
		in := j >= 0 && j < n
		var ls interface{}
		kind := ""
		if in {
			ls, kind = l[j], lk[j]
		}
		lw := map[string]string{"index": fmt.Sprint(j), "len": fmt.Sprint(n), "stored": fmt.Sprintf("%.200v", ls), "kind": kind}
		strict("List.GetInteger", kind, "int", ls, in, func() interface{} { return l.GetInteger(j) }, lw)
		strict("List.GetString", kind, "string", ls, in, func() interface{} { return l.GetString(j) }, lw)
		strict("List.GetList", kind, "list", ls, in, func() interface{} { return l.GetList(j) }, lw)
		strict("List.GetDict", kind, "dict", ls, in, func() interface{} { return l.GetDict(j) }, lw)
		strict("List.GetVal", kind, "any", ls, in, func() interface{} { return l.GetVal(j) }, lw)
		var ex bool
		if p, panicked := h.Try(func() { ex = l.Exist(j) }); panicked {
			R.Violate("list-exist", fmt.Sprintf("List.Exist raised %v", p), lw)
		} else if ex != in {
			R.Violate("list-exist", "List.Exist disagrees with the list", lw)
		}
		// membership
		words := []string{"ping", "find_node", "get_peers", "announce_peer", "", "PING", "é", "\xff\xfe", "[at]", "{AT}", "a", "aa"}
		ml := misc.List{}
		for m := r.Intn(6); m > 0; m-- {
			if r.Intn(3) == 0 {
				v, _ := mk()
				if s, ok := v.(string); !ok || isASCII(s) {
					ml = append(ml, v)
				}
			} else {
				ml = append(ml, words[r.Intn(len(words))])
			}
		}
		t := words[r.Intn(len(words))]
		switch r.Intn(5) {
		case 0:
			t = strings.ToUpper(t)
		case 1:
			t = strings.ToLower(t)
		case 2:
			t = t + " "
		case 3:
			if len(t) > 1 && isASCII(t) {
				t = t[:len(t)-1]
			}
		}
		// a name of the list with something after or before it, or part of it
		if len(ml) > 0 && r.Intn(3) == 0 {
			if s, ok := ml[r.Intn(len(ml))].(string); ok && isASCII(s) {
				extra := []string{"\x00", "\x00x", "\n", "\t", ":", "/", ".", "_", s, "\x7f", ",", "*", " x"}[r.Intn(13)]
				switch r.Intn(4) {
				case 0:
					t = extra + s
				case 1:
					t = s[len(s)/2:]
				default:
					t = s + extra
				}
			}
		}
		if !isASCII(t) {
			t = "ping"
		}
		want := false
		for _, x := range ml {
			if s, ok := x.(string); ok && isASCII(s) && asciiFold(s) == asciiFold(t) {
				want = true
			}
		}
		var got bool
		p, panicked := h.Try(func() { got = ml.ContainsString(t) })
		R.Eval("contains/" + fmt.Sprint(want, len(ml)))
		mw := map[string]string{"list": fmt.Sprintf("%.300q", fmt.Sprintf("%v", ml)), "target": t}
		if panicked {
			R.Violate("contains-raised", fmt.Sprintf("ContainsString raised %v", p), mw)
		} else if got != want {
			R.Violate("contains-wrong", fmt.Sprintf("ContainsString=%v, expected %v", got, want), mw)
		}
		if snap(l) != lb {
			R.Violate("list-modified", "reading modified the list", lw)
		}
	}
	c04long()
	codecTogether("read")
}

// c04long reads lists far longer than any that fits a datagram.
func c04long() {
	R := h.R
	for _, n := range []int{200, 300, 33000, 70000, h.N(140000, 1200000)} {
		l := make(misc.List, n)
		for i := range l {
			switch i % 4 {
			case 0:
				l[i] = i
			case 1:
				l[i] = fmt.Sprint("s", i)
			case 2:
				l[i] = misc.List{i}
			default:
				l[i] = misc.Dict{"i": i}
			}
		}
		at := func(i int) (int, bool) {
			k := -1
			_, bad := h.Try(func() {
				switch i % 4 {
				case 0:
					k = l.GetInteger(i)
				case 1:
					fmt.Sscanf(l.GetString(i), "s%d", &k)
				case 2:
					x := l.GetList(i)
					k = x.GetInteger(0)
				default:
					x := l.GetDict(i)
					k = x.GetInteger("i")
				}
			})
			return k, !bad
		}
		r := h.Rand("long", n)
		for j := 0; j < 3000; j++ {
			i := r.Intn(n)
			if j < 1200 {
				// every power of two, from both sides
				i = (1<<uint(j%21) + j/21%5 - 2 + n) % n
			}
			if j > 2900 {
				i = n - 1 - (j - 2900)
			}
			k, ok := at(i)
			R.Eval(fmt.Sprintf("long|%d|%d", n, i%4))
			if !ok || k != i || !l.Exist(i) {
				R.Violate("strict-raised:long", fmt.Sprintf("a list of %d items: reading item %d gave %d (raised: %v, exists: %v)", n, i, k, !ok, l.Exist(i)), nil)
				return
			}
		}
		for _, i := range []int{n, n + 1, 2 * n, -n, n + 65536, n + 1<<32, -1} {
			if _, ok := at(i &^ 3); i&^3 >= n && ok || l.Exist(i) {
				R.Violate("strict-silent:long", fmt.Sprintf("a list of %d items: item %d was read", n, i), nil)
				return
			}
		}
		if !l.ContainsString(fmt.Sprint("S", (n-1)/4*4-3)) || l.ContainsString("s0") {
			R.Violate("contains-wrong", fmt.Sprintf("a list of %d items: ContainsString is wrong", n), nil)
		}
		R.Count("long_lists", 1)
	}
}

func sortedDump(d misc.Dict) string {
	ks := []string{}
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%q=%#v;", k, d[k])
	}
	return s
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func asciiFold(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}
