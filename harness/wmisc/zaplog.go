package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"

	"verifharness/h"
)

// ---- M07: the structured log files

type zrec struct {
	sev    int
	prefix string
	msg    string
	ctx    map[string]interface{} // as JSON shows it; nil: any value
}

var zlevels = []struct {
	name string
	min  int // lowest severity written
}{{"DEBUG", 0}, {"INFO", 1}, {"WARN", 2}, {"ERROR", 3}, {"PANIC", 4}, {"info", 1}}

var zname = []string{"debug", "info", "warn", "error", "panic", ""}

func m07() {
	R := h.R
	R.Rule = "records of all severities with unique messages (line ends, quotes, control characters, any letters, up to 200 KB) and contexts written by 1..12 goroutines through structured loggers of every level, with and without prefixes, to one file per name, some of which held records of earlier loggers; distinct = level x severity x prefix x size class x number of writers; oracle: every line of the file is one whole JSON record, each expected record exactly once with its severity, prefix, message and context, no other"
	stop := h.Guard("stuck", "structured logging does not return", 3*time.Minute)
	defer stop()
	rounds := h.N(48, 600)
	if h.Scenario == "short" {
		rounds = 12
	}
	for round := 0; round < rounds && R.Bad() == 0; round++ {
		r := h.Rand("m07", round)
		n := 1 + r.Intn(3)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			wg.Add(1)
			kr := rand.New(rand.NewSource(r.Int63()))
			go func(k int) {
				defer wg.Done()
				zfile(fmt.Sprintf([]string{"m07-%d-%d", "M07-%d-Mixed %d", "m07.%d.log%d", "m07 \u00e9%d-%d "}[(round+k)%4], round, k), zlevels[(round+k)%len(zlevels)].name, zlevels[(round+k)%len(zlevels)].min, kr)
			}(k)
		}
		wg.Wait()
	}
	if R.Bad() == 0 && h.Scenario != "short" {
		m07large()
	}
}

// m07large writes tens of megabytes under one name, through loggers made one
// after the other, and reads all files of that name back (a logger may
// continue in another file; nothing may be gone).
func m07large() {
	R := h.R
	total := h.N(60, 400) << 20
	name := "m07large"
	var mu sync.Mutex
	written := map[string]int{}
	size := 0
	for gen := 0; gen < 3; gen++ {
		l := misc.NewZapLogger(name, "INFO").SetPrefix("big")
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			gr := h.Rand("m07large", gen, g)
			go func(g int) {
				defer wg.Done()
				for i, n := 0, 0; n < total/18; i++ {
					id := fmt.Sprintf("id<%d.%d.%d>", gen, g, i)
					msg := id + strings.Repeat(string(rune('a'+i%26)), 1000+gr.Intn(20000))
					l.Info(msg, misc.Dict{"n": i})
					n += len(msg)
					mu.Lock()
					written[id] = len(msg)
					size += len(msg)
					mu.Unlock()
				}
			}(g)
		}
		wg.Wait()
		l.Flush()
	}
	files, _ := filepath.Glob("logs/" + name + "*")
	seen := map[string]int{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if strings.HasSuffix(f, ".gz") {
			if z, err := gzip.NewReader(bytes.NewReader(b)); err == nil {
				b, _ = io.ReadAll(z)
			}
		}
		for _, line := range bytes.Split(b, []byte("\n")) {
			i, j := bytes.Index(line, []byte("id<")), bytes.Index(line, []byte(">"))
			if i < 0 || j < i {
				continue
			}
			id := string(line[i : j+1])
			if n := written[id]; n > 0 && bytes.Contains(line, []byte(id+string(rune('a'+idn(id)%26)))) && len(line) >= n {
				seen[id]++
			}
		}
		os.Remove(f)
	}
	lost, twice := 0, 0
	for id := range written {
		switch seen[id] {
		case 0:
			lost++
		case 1:
		default:
			twice++
		}
	}
	if lost > 0 {
		R.Violate("missing", fmt.Sprintf("%d of %d records (%d MiB in all) are in no file of the logger's name", lost, len(written), size>>20), files)
	}
	if twice > 0 {
		R.Violate("repeated", fmt.Sprintf("%d of %d records were written more than once", twice, len(written)), files)
	}
	R.Eval("large")
	R.Count("bytes_written_under_one_name", int64(size))
	R.Count("lines_read_back", int64(len(seen)))
}

func idn(id string) int {
	n, _ := strconv.Atoi(strings.TrimSuffix(id[strings.LastIndex(id, ".")+1:], ">"))
	return n
}

func ztext(r *rand.Rand, max int) string {
	const odd = "\n\r\t\"\\{}:, \x00\x01\x1f\x7f<>&'%d%säß中\u2028é😀"
	o := []rune(odd)
	n := r.Intn(max + 1)
	b := make([]rune, n)
	for i := range b {
		if r.Intn(4) == 0 {
			b[i] = o[r.Intn(len(o))]
		} else {
			b[i] = rune('a' + r.Intn(26))
		}
	}
	return string(b)
}

// zfile writes to one log file, through one logger after the other, and reads it back.
func zfile(name, level string, min int, r *rand.Rand) {
	R := h.R
	where := fmt.Sprintf("logger %s, level %s", name, level)
	var mu sync.Mutex
	want := map[string]zrec{}
	not := map[string]zrec{}
	for gen := 0; gen < 1+r.Intn(2) && R.Bad() == 0; gen++ {
		base := misc.NewZapLogger(name, level)
		loggers := []misc.Logger{base, base.SetPrefix("pre"), base.SetPrefix("p").SetPrefix("other"), base}
		prefixes := []string{"", "[pre]", "[other]", ""}
		gs := 1 + r.Intn(12)
		var wg sync.WaitGroup
		for g := 0; g < gs; g++ {
			wg.Add(1)
			gr := rand.New(rand.NewSource(r.Int63()))
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 40; i++ {
					sev, li := gr.Intn(6), gr.Intn(4)
					id := fmt.Sprintf("id<%s.%d.%d.%d>", name, gen, g, i)
					max := []int{0, 30, 300, 3000}[gr.Intn(4)]
					if gr.Intn(100) == 0 {
						max = 200000
					}
					x := zrec{sev: sev, prefix: prefixes[li], msg: id + ztext(gr, max)}
					var ctx misc.Dict
					if gr.Intn(4) > 0 {
						ctx = misc.Dict{}
						x.ctx = map[string]interface{}{}
						for k := gr.Intn(7); k > 0; k-- {
							key := fmt.Sprintf("key%d", k)
							if gr.Intn(4) == 0 {
								key = "K " + fmt.Sprint(k) + ztext(gr, 4)
							}
							ctx[key], x.ctx[key] = zval(gr, id)
						}
					}
					h.Journal("m07 %s %d %d", id, sev, len(x.msg))
					panicked := emit(loggers[li], sev, x.msg, ctx)
					if (sev == 4) != panicked {
						R.Violate("panic", fmt.Sprintf("severity %s at level %s: panicked=%v", levels[sev].name, level, panicked), where)
					}
					mu.Lock()
					if sev >= min {
						want[id] = x
					} else {
						not[id] = x
					}
					mu.Unlock()
					R.Eval(fmt.Sprintf("%s|%d|%d|%d|%d", level, sev, li, max, gs))
					if gr.Intn(50) == 0 {
						loggers[li].Flush()
					}
				}
			}(g)
		}
		wg.Wait()
		base.Flush()
		zjudge(name, where, want, not)
		R.Count("generations_of_loggers", 1)
	}
	os.Remove("logs/" + name + ".log")
}

// zval is a context value and how JSON shows it.
func zval(r *rand.Rand, id string) (interface{}, interface{}) {
	switch r.Intn(9) {
	case 7:
		return nil, nil
	case 8:
		in := ztext(r, 30)
		return misc.Dict{"in": in, "n": 5, "l": misc.List{1, in}}, map[string]interface{}{"in": in, "n": float64(5), "l": []interface{}{float64(1), in}}
	case 0:
		n := r.Intn(1<<40) - 1<<39
		return n, float64(n)
	case 1:
		max := 60
		if r.Intn(12) == 0 {
			max = 6000
		}
		s := id + ztext(r, max)
		return s, s
	case 2:
		return true, true
	case 3:
		return errors.New("err-" + id), "err-" + id
	case 4:
		return strer{"str-" + id}, "str-" + id
	case 5:
		return "", ""
	default:
		return 7, float64(7)
	}
}

func zjudge(name, where string, want, not map[string]zrec) {
	R := h.R
	b, err := os.ReadFile("logs/" + name + ".log")
	if err != nil && len(want) > 0 {
		R.Violate("missing", "no log file was written", where+": "+err.Error())
		return
	}
	text := string(b)
	if text != "" && !strings.HasSuffix(text, "\n") {
		R.Violate("torn-line", "the log file does not end with a line end", where)
	}
	seen := map[string]bool{}
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if l == "" && text == "" {
			continue
		}
		var o map[string]interface{}
		if err := json.Unmarshal([]byte(l), &o); err != nil {
			R.Violate("torn-line", "a line of the log file is not one JSON record: "+err.Error(), fmt.Sprintf("%s: %.300q", where, l))
			return
		}
		msg, _ := o["msg"].(string)
		a, e := strings.Index(msg, "id<"), strings.Index(msg, ">")
		if a < 0 || e < a {
			R.Violate("invented", "a line belongs to no record that was logged", fmt.Sprintf("%s: %.300q", where, l))
			return
		}
		id := msg[a : e+1]
		if x, bad := not[id]; bad {
			R.Violate("below-level", fmt.Sprintf("a %s record was written by a logger configured for a higher level", levels[x.sev].name), fmt.Sprintf("%s: %.300q", where, l))
			return
		}
		x, ok := want[id]
		if !ok {
			R.Violate("invented", "a line belongs to no record that was logged", fmt.Sprintf("%s: %.300q", where, l))
			return
		}
		if seen[id] {
			R.Violate("repeated", "a record was written twice", fmt.Sprintf("%s: %.300q", where, l))
			return
		}
		seen[id] = true
		lev, _ := o["level"].(string)
		if x.sev < 5 && !strings.EqualFold(lev, zname[x.sev]) || x.sev == 5 && (lev == "" || isName(lev)) {
			R.Violate("severity", fmt.Sprintf("a %s record carries the severity %q", levels[x.sev].name, lev), fmt.Sprintf("%s: %.300q", where, l))
			return
		}
		if msg != x.prefix+x.msg {
			R.Violate("message", "a record does not carry its prefix and message", fmt.Sprintf("%s: %.300q want %.300q", where, msg, x.prefix+x.msg))
			return
		}
		for k, v := range x.ctx {
			got, ok := o[k]
			if !ok || !reflect.DeepEqual(got, v) {
				R.Violate("context", "a record does not carry an entry of its context", fmt.Sprintf("%s: %.60q is %.100q, want %.100q", where, k, fmt.Sprint(got), fmt.Sprint(v)))
				return
			}
		}
	}
	for id, x := range want {
		if !seen[id] {
			R.Violate("missing", fmt.Sprintf("a %s record at or above the configured level is not in the file", levels[x.sev].name), where+": "+id)
			return
		}
	}
	R.Count("lines_read_back", int64(len(seen)))
	R.Count("records_below_level", int64(len(not)))
}

func isName(l string) bool {
	for _, n := range zname {
		if n != "" && strings.EqualFold(n, l) {
			return true
		}
	}
	return false
}
