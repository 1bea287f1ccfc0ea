// Package h is what every worker shares: seeded randomness, the report the
// monitors fill in while they observe, and a generous watchdog.
package h

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one observed breach: Key is stable (used to match known
// findings), Desc says what was observed, Witness is what replays it.
type Violation struct {
	Key     string      `json:"key"`
	Desc    string      `json:"desc"`
	Witness interface{} `json:"witness,omitempty"`
}

type Report struct {
	mu           sync.Mutex
	Prop         string           `json:"property"`
	Done         bool             `json:"done"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     int64            `json:"distinct_nontrivial"`
	Rule         string           `json:"rule"`
	Samples      []interface{}    `json:"samples"`
	Counters     map[string]int64 `json:"counters"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Exhaustive   bool             `json:"exhaustive,omitempty"`
	Assumptions  []string         `json:"assumptions,omitempty"`
	distinct     map[uint64]struct{}
	vkeys        map[string]int
	lastSample   int64
	settling     bool
}

var (
	Prop     string
	Tier     string
	Seed     int64
	Out      string
	Scratch  string
	Scenario string
	R        *Report
	journal  *os.File
	progress int64
)

// Init parses the common flags of a worker.
func Init() {
	flag.StringVar(&Prop, "prop", "", "property id")
	flag.StringVar(&Scenario, "scenario", "", "scenario of the property")
	flag.StringVar(&Tier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&Seed, "seed", 1, "seed of every random choice")
	flag.StringVar(&Out, "out", "", "report file")
	flag.StringVar(&Scratch, "scratch", "", "scratch directory")
	flag.Parse()
	R = &Report{Prop: Prop, Counters: map[string]int64{}, distinct: map[uint64]struct{}{}, vkeys: map[string]int{}}
	if Out != "" {
		journal, _ = os.OpenFile(Out+".journal", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	}
}

func Thorough() bool { return Tier == "thorough" }

// N scales a case count by tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Rand gives an independent generator for one named stream of choices.
func Rand(parts ...interface{}) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d|%s", Seed, Prop)
	for _, p := range parts {
		fmt.Fprintf(f, "|%v", p)
	}
	return rand.New(rand.NewSource(int64(f.Sum64() >> 1)))
}

// Eval counts one judged execution; key identifies it for the distinct count
// ("" when it is trivial).
func (r *Report) Eval(key string) {
	atomic.AddInt64(&progress, 1)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evaluations++
	if key == "" {
		return
	}
	f := fnv.New64a()
	f.Write([]byte(key))
	k := f.Sum64()
	if _, ok := r.distinct[k]; !ok {
		r.distinct[k] = struct{}{}
		r.Distinct++
	}
}

func (r *Report) EvalN(n int64) {
	atomic.AddInt64(&progress, 1)
	r.mu.Lock()
	r.Evaluations += n
	r.mu.Unlock()
}

// DistinctN adds cases that are distinct by construction.
func (r *Report) DistinctN(n int64) {
	r.mu.Lock()
	r.Distinct += n
	r.mu.Unlock()
}

func (r *Report) Count(name string, n int64) {
	r.mu.Lock()
	r.Counters[name] += n
	r.mu.Unlock()
}

func (r *Report) Max(name string, n int64) {
	r.mu.Lock()
	if n > r.Counters[name] {
		r.Counters[name] = n
	}
	r.mu.Unlock()
}

// Sample keeps a few actual cases.
func (r *Report) Sample(v interface{}) {
	r.mu.Lock()
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, v)
	}
	r.mu.Unlock()
}

func (r *Report) Violate(key, desc string, witness interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.vkeys[key]++
	r.Counters["violating_observations"]++
	if !r.settling && !listed(key) {
		// enough is known: a workload that a violation slows down is not waited for
		r.settling = true
		time.AfterFunc(settle, r.Finish)
	}
	if r.vkeys[key] > 3 || len(r.Violations) > 40 {
		return
	}
	r.Violations = append(r.Violations, Violation{key, desc, witness})
}

// settle is how long a worker goes on after a violation.
const settle = 40 * time.Second

// listed tells whether the key is that of a known finding.
func listed(key string) bool {
	for _, k := range strings.Fields(os.Getenv("VERIF_KNOWN")) {
		if k == key {
			return true
		}
	}
	return false
}

func (r *Report) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Violations) > 0
}

// Bad reports how many distinct violation keys were seen.
func (r *Report) Bad() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.vkeys)
}

func (r *Report) Unclear(f string, a ...interface{}) {
	r.mu.Lock()
	if len(r.Inconclusive) < 20 {
		r.Inconclusive = append(r.Inconclusive, fmt.Sprintf(f, a...))
	}
	r.Counters["inconclusive_observations"]++
	r.mu.Unlock()
}

var finishing sync.Mutex

// Finish writes the report and ends the worker.
func (r *Report) Finish() {
	finishing.Lock() // the first caller ends the process
	r.mu.Lock()
	r.Done = true
	b, err := json.MarshalIndent(r, "", " ")
	r.mu.Unlock()
	if err != nil {
		Fatal("report: %v", err)
	}
	if err := os.WriteFile(Out+".tmp", b, 0644); err != nil {
		Fatal("report: %v", err)
	}
	os.Rename(Out+".tmp", Out)
	os.Exit(0)
}

// Fatal is an error of the machinery itself, never a verdict.
func Fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+f+"\n", a...)
	os.Exit(97)
}

// Journal notes what is being tried, so that a crash can be attributed.
func Journal(f string, a ...interface{}) {
	if journal == nil {
		return
	}
	s := fmt.Sprintf(f, a...)
	if len(s) > 4000 {
		s = s[:4000]
	}
	b := make([]byte, 4096)
	for i := range b {
		b[i] = ' '
	}
	copy(b, s)
	b[4095] = '\n'
	journal.WriteAt(b, 0)
}

// Guard ends the worker with a violation when no progress was made for a very
// long time although this process was being scheduled (the ticks prove it).
// body names what is stuck.
func Guard(key, desc string, limit time.Duration) (stop func()) {
	done := make(chan struct{})
	go func() {
		const tick = 100 * time.Millisecond
		need := int64(limit / tick)
		var ticks int64
		for {
			select {
			case <-done:
				return
			case <-time.After(tick):
				ticks++
			}
			if ticks >= need {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				if n > 60000 {
					n = 60000
				}
				R.Violate(key, fmt.Sprintf("%s: no end after %d scheduler ticks of %v", desc, ticks, tick), string(buf[:n]))
				R.Finish()
			}
		}
	}()
	var once sync.Once
	return func() { once.Do(func() { close(done) }) }
}

// Wait polls cond until it holds or limit has passed in scheduled ticks.
func Wait(limit time.Duration, cond func() bool) bool {
	return WaitProbe(limit, 0, cond)
}

// WaitProbe is Wait for a condition that itself takes up to the given time.
func WaitProbe(limit, probe time.Duration, cond func() bool) bool {
	const tick = 2 * time.Millisecond
	n := int64(limit / (tick + probe))
	start := time.Now()
	for i := int64(0); ; i++ {
		if cond() {
			return true
		}
		// both many ticks and much time: a stalled machine earns more time
		if i >= n/4 && time.Since(start) >= limit {
			return cond()
		}
		time.Sleep(tick)
	}
}

func Sha1(b []byte) []byte { s := sha1.Sum(b); return s[:] }

func Hex(b []byte) string {
	if len(b) > 600 {
		return hex.EncodeToString(b[:600]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func HexS(s string) string { return Hex([]byte(s)) }

// Bytes gives n random bytes.
func Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// Try runs f and returns what it panicked with, if it did.
func Try(f func()) (p interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			p = recover()
		}
	}()
	f()
	panicked = false
	return
}

func SortedKeys(m map[string]int64) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// Goroutines waits until at most n goroutines remain.
func Goroutines(n int, limit time.Duration) bool {
	return Wait(limit, func() bool { return runtime.NumGoroutine() <= n })
}
