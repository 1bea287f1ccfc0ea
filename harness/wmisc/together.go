package main

import (
	"fmt"
	"sync"

	"github.com/GalaIO/P2Pcrawler/misc"

	"verifharness/h"
	"verifharness/ref"
)

// codecTogether encodes, decodes and reads messages from several goroutines at
// once, as the workers of the server do; some of the values are shared between
// all of them, as a template of a message is.
func codecTogether(what string) {
	R := h.R
	sr := h.Rand("together", what)
	type tmpl struct {
		v    *ref.Val
		m    interface{}
		text string
	}
	var shared []tmpl
	for i := 0; i < 40; i++ {
		budget := 40
		v := genDict(sr, &budget, 3)
		shared = append(shared, tmpl{v, toMisc(v), string(ref.Encode(v))})
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		r := h.Rand("together", what, g)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < h.N(3000, 60000) && R.Bad() < 3; i++ {
				var t tmpl
				if r.Intn(2) == 0 {
					t = shared[r.Intn(len(shared))]
				} else {
					budget := 1 + r.Intn(30)
					v := genVal(r, &budget, 3)
					if r.Intn(2) == 0 {
						v = genDict(r, &budget, 3)
					}
					t = tmpl{v, toMisc(v), string(ref.Encode(v))}
				}
				w := map[string]string{"value": show(t.v), "mode": "several goroutines at once"}
				switch what {
				case "decode":
					s := t.text
					if b := []byte(s); r.Intn(2) == 0 && len(b) > 0 {
						b[r.Intn(len(b))] = "ilde:012-"[r.Intn(9)]
						s = string(b)
					}
					c02judge(s, false)
				case "read":
					d, ok := t.m.(misc.Dict)
					if !ok {
						continue
					}
					for _, e := range t.v.D {
						if !d.Exist(e.K) || d.Exist(e.K+"\x00no") {
							R.Violate("exist", "a present key is reported absent, or an absent one present", w)
						}
						bad := ""
						switch e.V.Kind {
						case ref.Int:
							if got := d.GetIntegerOrDefault(e.K, -7); got != int(e.V.I) {
								bad = fmt.Sprint(got)
							}
						case ref.Str:
							if got := d.GetStringOrDefault(e.K, "no"); got != e.V.S {
								bad = fmt.Sprintf("%q", got)
							}
						case ref.List:
							if got := d.GetList(e.K); len(got) != len(e.V.L) {
								bad = fmt.Sprintf("a list of %d", len(got))
							}
						case ref.Dict:
							if got := d.GetDict(e.K); len(got) != len(e.V.D) {
								bad = fmt.Sprintf("a dictionary of %d", len(got))
							}
						}
						if bad != "" {
							R.Violate("value", fmt.Sprintf("reading %q gave %s", e.K, bad), w)
						}
						R.Count("concurrent_reads", 1)
					}
				default:
					var enc string
					var err error
					p, panicked := h.Try(func() {
						switch m := t.m.(type) {
						case misc.Dict:
							enc, err = misc.EncodeDict(m)
						case misc.List:
							enc, err = misc.EncodeSlice(m)
						case int:
							enc, err = misc.EncodeInteger(m)
						case string:
							enc, err = misc.EncodeString(m)
						}
					})
					w["got"] = h.HexS(enc)
					if panicked || err != nil {
						R.Violate("encode-refused", fmt.Sprintf("encoding a valid value while others encode failed: %v %v", err, p), w)
						continue
					}
					got, n, st := ref.Parse(enc)
					if n != len(enc) || st == ref.Bad || !ref.Equal(got, t.v) || string(ref.EncodeRaw(got)) != enc || enc != t.text && !hasMulti(t.v) {
						R.Violate("encode-together", "a value encoded while others encode is not its encoding", w)
						continue
					}
					if d, ok := t.m.(misc.Dict); ok {
						if back, err := misc.DecodeDict(enc); err != nil || !same(back, t.v) {
							R.Violate("roundtrip-together", fmt.Sprintf("decoding while others decode did not give the value back: %v", err), w)
						}
						_ = d
					}
				}
				R.Count("concurrent_codec_calls", 1)
				if i%50 == 0 {
					R.Eval(fmt.Sprintf("together|%s|%d|%d", what, t.v.Kind, len(t.text)))
				}
			}
		}(g)
	}
	wg.Wait()
}
