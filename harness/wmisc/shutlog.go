package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/signal"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/GalaIO/P2Pcrawler/misc"

	"verifharness/h"
)

// ---- M05

type waiter interface {
	Clean(...misc.CleanFunc)
	WaitShutdown(time.Duration)
	Status() misc.ShutdownStatus
}

type ctxKey int

// endsWith is a context that ends with a given error when told to.
type endsWith struct {
	context.Context
	done chan struct{}
	once sync.Once
	err  error
	over int32
}

func (c *endsWith) Done() <-chan struct{} { return c.done }
func (c *endsWith) Err() error {
	if atomic.LoadInt32(&c.over) == 1 {
		return c.err
	}
	return nil
}
func (c *endsWith) end() {
	c.once.Do(func() { atomic.StoreInt32(&c.over, 1); close(c.done) })
}

// someContext: cancelled, past its deadline, or ended for another reason.
func someContext(r *rand.Rand) (context.Context, func()) {
	switch r.Intn(5) {
	case 0:
		c := &endsWith{Context: context.Background(), done: make(chan struct{}), err: context.DeadlineExceeded}
		return c, c.end
	case 1:
		c := &endsWith{Context: context.Background(), done: make(chan struct{}), err: errors.New("")}
		return c, c.end
	case 2:
		parent, cancel := context.WithCancel(context.Background())
		ctx, c2 := context.WithTimeout(parent, time.Hour)
		return ctx, func() { cancel(); c2() }
	case 3:
		ctx, cancel := context.WithCancelCause(context.WithValue(context.Background(), ctxKey(1), 1))
		return ctx, func() { cancel(errors.New("why")) }
	}
	return context.WithCancel(context.Background())
}

func m05() {
	R := h.R
	R.Rule = "shutdown contexts with 0..900 cleanups registered from 1..8 goroutines, stopped by SIGINT, SIGTERM or cancellation (once or several times, also before anybody waits), with quick, slow and hanging cleanups; distinct = goroutines x cleanups x trigger x kind; oracle: per-cleanup counter (exactly one, none before the trigger), status sampled before, during and after, return neither before the cleanups ended nor before the timeout"
	stop := h.Guard("stuck", "waiting for shutdown does not end", 4*time.Minute)
	// a second signal during a run must not kill the worker
	ign := make(chan os.Signal, 100)
	var delivered, sent int32
	signal.Notify(ign, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		for range ign {
			atomic.AddInt32(&delivered, 1)
		}
	}()
	rounds := h.N(160, 2000)
	if h.Scenario == "short" {
		rounds = 30
	}
	for round := 0; round < rounds; round++ {
		r := h.Rand("m05", round)
		regs := 1 + r.Intn(8)
		per := r.Intn(9)
		if round%9 == 4 {
			per = r.Intn(120)
		}
		trigger := []string{"cancel", "SIGINT", "SIGTERM", "cancel-before-wait", "many", "SIGTERM-before-wait"}[round%6]
		kind := []string{"quick", "slow", "hang"}[r.Intn(3)]
		if kind == "hang" && round%7 != 0 {
			kind = "quick"
		}
		desc := map[string]interface{}{"round": round, "goroutines": regs, "each": per, "trigger": trigger, "kind": kind}
		if round < 5 {
			R.Sample(desc)
		}
		ctx, cancel := someContext(r)
		var w waiter = misc.WithShutdownContext(ctx)
		if w.Status() != misc.Running {
			R.Violate("status", "a new shutdown context does not report running", desc)
		}
		var triggered, early, wrongStatus int32
		n := regs * per
		runs := make([]int32, n)
		hang := make(chan struct{})
		hangs := 0
		var wg sync.WaitGroup
		var slowDone int32
		for g := 0; g < regs; g++ {
			var fs []misc.CleanFunc
			for i := 0; i < per; i++ {
				id := g*per + i
				hangs1 := kind == "hang" && id%5 == 2
				if hangs1 {
					hangs++
				}
				slow := kind == "slow" && id%3 == 0
				d := time.Duration(r.Intn(4)) * time.Millisecond
				fs = append(fs, func() {
					if atomic.LoadInt32(&triggered) == 0 {
						atomic.AddInt32(&early, 1)
					}
					if s := w.Status(); s != misc.Shutdowning {
						// only when nothing can have timed out yet
						if kind != "hang" {
							atomic.AddInt32(&wrongStatus, 1)
						}
					}
					if slow {
						time.Sleep(d)
					}
					if hangs1 {
						atomic.AddInt32(&runs[id], 1)
						<-hang
						return
					}
					atomic.AddInt32(&runs[id], 1)
					atomic.AddInt32(&slowDone, 1)
				})
			}
			wg.Add(1)
			gr := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				for len(fs) > 0 {
					k := 1 + gr.Intn(len(fs))
					w.Clean(fs[:k]...)
					fs = fs[k:]
					jitter(gr)
				}
			}()
		}
		wg.Wait()
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		var seq []misc.ShutdownStatus
		sampler := make(chan struct{})
		sdone := make(chan struct{})
		go func() {
			defer close(sdone)
			for {
				s := w.Status()
				if len(seq) == 0 || seq[len(seq)-1] != s {
					seq = append(seq, s)
				}
				select {
				case <-sampler:
					return
				default:
					runtime.Gosched()
				}
			}
		}()
		timeout := 10 * time.Minute
		if kind == "hang" && hangs > 0 {
			timeout = time.Duration(60+r.Intn(100)) * time.Millisecond
			if r.Intn(3) == 0 {
				timeout = []time.Duration{0, 1, -time.Second}[r.Intn(3)]
			}
		}
		var tstart time.Time
		fire := func() {
			atomic.StoreInt32(&triggered, 1)
			tstart = time.Now()
			switch trigger {
			case "cancel", "cancel-before-wait":
				cancel()
			case "SIGINT":
				sent++
				syscall.Kill(os.Getpid(), syscall.SIGINT)
			case "SIGTERM", "SIGTERM-before-wait":
				sent++
				syscall.Kill(os.Getpid(), syscall.SIGTERM)
			case "many":
				sent += 2
				syscall.Kill(os.Getpid(), syscall.SIGTERM)
				cancel()
				syscall.Kill(os.Getpid(), syscall.SIGINT)
			}
		}
		if trigger == "cancel-before-wait" || trigger == "SIGTERM-before-wait" {
			before := atomic.LoadInt32(&delivered)
			fire()
			if trigger == "SIGTERM-before-wait" {
				// the signal is delivered while nobody waits yet
				for atomic.LoadInt32(&delivered) == before {
					time.Sleep(time.Millisecond)
				}
				signal.Notify(ign, syscall.SIGINT, syscall.SIGTERM) // returns after the delivery is complete
			}
		}
		returned := make(chan struct{})
		go func() { w.WaitShutdown(timeout); close(returned) }()
		if trigger != "cancel-before-wait" && trigger != "SIGTERM-before-wait" {
			for i := 0; i < r.Intn(50); i++ {
				runtime.Gosched()
			}
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			select {
			case <-returned:
				R.Violate("returned-untold", "waiting for shutdown returned before anything asked for it", desc)
			default:
			}
			fire()
		}
		if !h.Wait(40*time.Second, func() bool {
			select {
			case <-returned:
				return true
			default:
				return false
			}
		}) {
			R.Violate("stuck", fmt.Sprintf("40 seconds after %s, with %d cleanups of which %d hang and a timeout of %v, waiting for shutdown has not returned", trigger, n, hangs, timeout), desc)
			R.Finish()
		}
		elapsed := time.Since(tstart)
		close(sampler)
		<-sdone
		if s := w.Status(); s != misc.Shutdowned {
			R.Violate("status", fmt.Sprintf("after waiting the status is %v", s), desc)
		}
		for i := 1; i < len(seq); i++ {
			if seq[i] < seq[i-1] {
				R.Violate("status-order", fmt.Sprintf("status went %v", seq), desc)
			}
		}
		if hangs == 0 {
			for id := range runs {
				if c := atomic.LoadInt32(&runs[id]); c != 1 {
					R.Violate("cleanup-count", fmt.Sprintf("when waiting returned, cleanup %d had run %d times", id, c), desc)
					break
				}
			}
		} else {
			if elapsed < timeout-5*time.Millisecond {
				R.Violate("gave-up-early", fmt.Sprintf("with a hanging cleanup and a %v timeout, waiting returned after %v", timeout, elapsed), desc)
			}
			R.Count("hanging_cleanups", int64(hangs))
			if !h.Wait(30*time.Second, func() bool {
				for id := range runs {
					if atomic.LoadInt32(&runs[id]) != 1 {
						return false
					}
				}
				return true
			}) {
				R.Violate("cleanup-lost", "a hanging cleanup kept another from running", desc)
			}
		}
		close(hang)
		time.Sleep(time.Millisecond)
		for id := range runs {
			if c := atomic.LoadInt32(&runs[id]); c > 1 {
				R.Violate("cleanup-twice", fmt.Sprintf("cleanup %d ran %d times", id, c), desc)
				break
			}
		}
		if atomic.LoadInt32(&early) > 0 {
			R.Violate("cleanup-early", "a cleanup ran before anything asked for shutdown", desc)
		}
		if atomic.LoadInt32(&wrongStatus) > 0 {
			R.Violate("status-in-cleanup", "a cleanup ran while the status was not shutting down", desc)
		}
		cancel()
		// no signal of this round reaches the next one
		if !h.Wait(20*time.Second, func() bool { return atomic.LoadInt32(&delivered) >= sent }) {
			h.Fatal("%d of %d signals were delivered", delivered, sent)
		}
		R.Count("cleanups", int64(n))
		R.Eval(fmt.Sprint(regs, per, trigger, kind))
	}
	m05prompt()
	m05late()
	// the process-wide context behind RegisterShutDownClean and Wait4Shutdown
	gctx, gcancel := context.WithCancel(context.Background())
	misc.InitShutdownCtx(gctx)
	var wg sync.WaitGroup
	runs := make([]int32, 64)
	var trig, early int32
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 8; i++ {
				id := g*8 + i
				misc.RegisterShutDownClean(func() {
					if atomic.LoadInt32(&trig) == 0 {
						atomic.AddInt32(&early, 1)
					}
					atomic.AddInt32(&runs[id], 1)
				})
			}
		}(g)
	}
	wg.Wait()
	ret := make(chan struct{})
	go func() { misc.Wait4Shutdown(10 * time.Minute); close(ret) }()
	time.Sleep(5 * time.Millisecond)
	atomic.StoreInt32(&trig, 1)
	gcancel()
	<-ret
	time.Sleep(5 * time.Millisecond)
	for id := range runs {
		if c := atomic.LoadInt32(&runs[id]); c != 1 {
			R.Violate("cleanup-count", fmt.Sprintf("process-wide cleanup %d ran %d times", id, c), nil)
			break
		}
	}
	// (signals of the rounds above may have reached the process-wide context:
	// it then starts at once, which is what it is for)
	R.Eval("process-wide")
	stop()
}

// m05late registers many cleanups while the earlier ones are being started: what
// was registered before the shutdown runs once, whatever becomes of the rest.
func m05late() {
	R := h.R
	for round := 0; round < h.N(12, 100) && R.Bad() == 0; round++ {
		ctx, cancel := context.WithCancel(context.Background())
		var w waiter = misc.WithShutdownContext(ctx)
		n := []int{8, 200, 4000}[round%3]
		runs := make([]int32, n)
		late := make([]int32, n)
		started := make(chan struct{})
		var once sync.Once
		for i := 0; i < n; i++ {
			i := i
			w.Clean(func() {
				once.Do(func() { close(started) })
				atomic.AddInt32(&runs[i], 1)
			})
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			if round%2 == 0 {
				for w.Status() == misc.Running {
				}
			} else {
				<-started
			}
			for i := 0; i < n; i++ {
				i := i
				w.Clean(func() { atomic.AddInt32(&late[i], 1) })
			}
		}()
		cancel()
		w.WaitShutdown(10 * time.Minute)
		wg.Wait()
		time.Sleep(2 * time.Millisecond)
		for i := range runs {
			if c := atomic.LoadInt32(&runs[i]); c != 1 {
				R.Violate("cleanup-count", fmt.Sprintf("%d cleanups were registered before shutdown and as many during it: cleanup %d of the first ran %d times", n, i, c), nil)
				break
			}
			if c := atomic.LoadInt32(&late[i]); c > 1 {
				R.Violate("cleanup-twice", fmt.Sprintf("a cleanup registered during shutdown ran %d times", c), nil)
				break
			}
		}
		R.Count("registered_during_shutdown", int64(n))
		R.Eval(fmt.Sprint("late ", n))
	}
}

// m05prompt measures what waiting adds to the last cleanup, or to its timeout;
// the best of many tries is judged.
func m05prompt() {
	R := h.R
	for _, hang := range []bool{false, true} {
		best := time.Hour
		for i := 0; i < h.N(25, 100); i++ {
			ctx, cancel := context.WithCancel(context.Background())
			w := misc.WithShutdownContext(ctx)
			release := make(chan struct{})
			var end int64
			for k := 0; k < 3; k++ {
				w.Clean(func() {
					<-release
					atomic.StoreInt64(&end, now())
				})
			}
			timeout := 10 * time.Minute
			if hang {
				timeout = time.Duration(100+i) * time.Millisecond
			} else {
				go func() { time.Sleep(5 * time.Millisecond); close(release) }()
			}
			s := time.Now()
			cancel()
			w.WaitShutdown(timeout)
			over := time.Since(s) - timeout
			if !hang {
				over = time.Duration(now() - atomic.LoadInt64(&end))
			} else {
				close(release)
			}
			if over < best {
				best = over
			}
			if best < 20*time.Millisecond && i > 4 {
				break
			}
		}
		what := "the last cleanup had ended"
		if hang {
			what = "its timeout had passed although a cleanup hung"
		}
		R.Max("best_wait_delay_us", int64(best/time.Microsecond))
		R.Eval("prompt: " + what)
		if best > 200*time.Millisecond {
			R.Violate("late", fmt.Sprintf("at its best, waiting for shutdown returned %v after %s", best, what), nil)
		}
	}
}

// ---- M06

type strer struct{ s string }

func (s strer) String() string { return s.s }

type capture struct {
	mu    sync.Mutex
	buf   strings.Builder
	r, w  *os.File
	done  chan struct{}
	slow  bool
	lines int
}

func startCapture(slow bool) *capture {
	r, w, err := os.Pipe()
	if err != nil {
		h.Fatal("pipe: %v", err)
	}
	c := &capture{r: r, w: w, done: make(chan struct{}), slow: slow}
	go func() {
		defer close(c.done)
		br := bufio.NewReaderSize(r, 4096)
		b := make([]byte, 4096)
		for {
			n, err := br.Read(b)
			c.mu.Lock()
			c.buf.Write(b[:n])
			c.mu.Unlock()
			if err == io.EOF || err != nil {
				return
			}
			if c.slow {
				runtime.Gosched()
			}
		}
	}()
	return c
}

// end closes the pipe and returns everything written.
func (c *capture) end() string {
	c.w.Close()
	<-c.done
	c.r.Close()
	return c.buf.String()
}

var levels = []struct {
	l    misc.LogLevel
	name string
}{{misc.DEBUG, "DEBUG"}, {misc.INFO, "INFO"}, {misc.WARN, "WARN"}, {misc.ERROR, "ERROR"}, {misc.PANIC, "PANIC"}, {misc.TRACE, "TRACE"}}

func emit(l misc.Logger, sev int, msg string, ctx misc.Dict) (panicked bool) {
	_, panicked = h.Try(func() {
		switch sev {
		case 0:
			l.Debug(msg, ctx)
		case 1:
			l.Info(msg, ctx)
		case 2:
			l.Warn(msg, ctx)
		case 3:
			l.Error(msg, ctx)
		case 4:
			l.Panic(msg, ctx)
		case 5:
			l.Trace(msg, ctx)
		}
	})
	return
}

type rec struct {
	id     string
	sev    int
	prefix string
	msg    string
	ctx    []string
	want   bool
}

func m06() {
	R := h.R
	R.Rule = "records of all severities with unique ids, prefixes and contexts logged by 1..10 goroutines through loggers obtained before and after the level was set, under every configured level and level changes at quiet points; distinct = severity x configured level x logger origin; oracle: captured standard output, split in lines, must contain each expected record exactly once, whole and complete, and nothing else"
	stop := h.Guard("stuck", "logging does not return", 3*time.Minute)
	real := os.Stdout
	old := []misc.Logger{misc.GetLogger(), misc.GetLogger("named"), misc.GetLogger().SetPrefix("before"), misc.GetLogger("other").SetPrefix("before2")}
	oldPrefix := []string{"", "", "before", "before2"}
	rounds := h.N(90, 1200)
	if h.Scenario == "short" {
		rounds = 18
	}
	for round := 0; round < rounds; round++ {
		r := h.Rand("m06", round)
		c := startCapture(round%2 == 0)
		os.Stdout = c.w
		var recs []rec
		var mu sync.Mutex
		phases := 1 + r.Intn(3)
		cur := levels[round%6]
		for ph := 0; ph < phases; ph++ {
			if ph > 0 {
				cur = levels[r.Intn(6)]
			}
			if r.Intn(2) == 0 {
				misc.SetLevel(cur.l)
			} else {
				n := cur.name
				switch r.Intn(4) {
				case 0:
					n = strings.ToLower(n)
				case 1:
					n = n[:1] + strings.ToLower(n[1:])
				case 2:
					n = strings.ToLower(n[:2]) + n[2:]
				}
				misc.SetLevel(misc.TransLogLevel(n))
			}
			loggers := append([]misc.Logger(nil), old...)
			prefixes := append([]string(nil), oldPrefix...)
			p := []string{"after%d", "after", "100%s%d", "%", "%%!", "\\n%v", "a b", " \t padded", "MiXed"}[r.Intn(9)] + fmt.Sprint(r.Intn(5))
			loggers = append(loggers, misc.GetLogger(), misc.GetLogger(fmt.Sprint("new", round)), misc.GetLogger().SetPrefix(p), old[2].SetPrefix("nested"))
			prefixes = append(prefixes, "", "", p, "nested")
			gs := 1 + r.Intn(10)
			var wg sync.WaitGroup
			for g := 0; g < gs; g++ {
				wg.Add(1)
				gr := rand.New(rand.NewSource(r.Int63()))
				go func(g, ph int) {
					defer wg.Done()
					for i := 0; i < 20; i++ {
						li := gr.Intn(len(loggers))
						sev := gr.Intn(6)
						id := fmt.Sprintf("id<%d.%d.%d.%d>", round, ph, g, i)
						msg := "message " + id + " of some length"
						if gr.Intn(6) == 0 {
							msg += strings.Repeat("=long=", gr.Intn(1500))
						}
						if gr.Intn(8) == 0 {
							msg += " 100%d %s %!v"
						}
						if gr.Intn(4) == 0 {
							odd := []string{"\t", "\x00", "\xff", "  ", "\u00e9", "\x1b[0m", "\u2028", "[", "|", ", "}
							msg = odd[gr.Intn(len(odd))] + msg + odd[gr.Intn(len(odd))]
						}
						ctx := misc.Dict(nil)
						var want []string
						if gr.Intn(4) > 0 {
							ctx = misc.Dict{}
							entries := gr.Intn(5)
							if gr.Intn(12) == 0 {
								entries = gr.Intn(60)
							}
							for k := entries; k > 0; k-- {
								key := fmt.Sprintf("key%d", k)
								switch gr.Intn(10) {
								case 6:
									ctx[key] = nil
									want = append(want, key+":")
								case 7:
									ctx[key] = ""
									want = append(want, key+":")
								case 8:
									ctx[key] = misc.Dict{"in": gr.Intn(9) - 4}
									want = append(want, key+`:{"in":`)
								case 9:
									ctx[key] = []interface{}{1.5, int64(-3), uint8(7)}[gr.Intn(3)]
									want = append(want, key+":")
								case 0:
									n := gr.Intn(1000000)
									if gr.Intn(3) == 0 {
										n = []int{math.MaxInt64, math.MinInt64, 1 << 32, -1 << 31, -1, 1<<31 + 5, 4294967295}[gr.Intn(7)]
									}
									ctx[key] = n
									want = append(want, fmt.Sprintf("%s:%d", key, n))
								case 1:
									ctx[key] = "val-" + id
									want = append(want, key+":val-"+id)
								case 2:
									ctx[key] = errors.New("err-" + id)
									want = append(want, key+":err-"+id)
								case 3:
									ctx[key] = strer{"str-" + id}
									want = append(want, key+":str-"+id)
								case 4:
									ctx[key] = misc.List{1, "two"}
									want = append(want, key+`:[1,"two"]`)
								case 5:
									ctx[key] = true
									want = append(want, key+":true")
								}
							}
						}
						panicked := emit(loggers[li], sev, msg, ctx)
						expect := levels[sev].l >= cur.l
						if (sev == 4) != panicked {
							R.Violate("panic", fmt.Sprintf("severity %s, configured level %s: panicked=%v", levels[sev].name, cur.name, panicked), nil)
						}
						mu.Lock()
						recs = append(recs, rec{id, sev, prefixes[li], msg, want, expect})
						mu.Unlock()
						origin := "after"
						if li < len(old) {
							origin = "before"
						}
						R.Eval(levels[sev].name + "/" + cur.name + "/" + origin)
						R.Count("records_logged", 1)
					}
				}(g, ph)
			}
			wg.Wait()
		}
		os.Stdout = real
		text := c.end()
		judgeLog(text, recs, fmt.Sprintf("round %d", round))
		if R.Bad() > 3 {
			break
		}
	}
	os.Stdout = real
	m06changing(real)
	misc.SetLevel(misc.INFO)
	stop()
}

// m06changing: the level changes between INFO and ERROR while others log; what
// is above either is always written, what is below both never.
func m06changing(real *os.File) {
	R := h.R
	for round := 0; round < h.N(12, 150) && R.Bad() == 0; round++ {
		c := startCapture(round%2 == 0)
		os.Stdout = c.w
		misc.SetLevel(misc.INFO)
		loggers := []misc.Logger{misc.GetLogger(), misc.GetLogger("changing"), misc.GetLogger().SetPrefix("p")}
		prefixes := []string{"", "", "p"}
		var recs []rec
		maybe := map[string]bool{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		quit := make(chan struct{})
		var toggled sync.WaitGroup
		toggled.Add(1)
		go func() {
			defer toggled.Done()
			for i := 0; ; i++ {
				select {
				case <-quit:
					return
				default:
				}
				misc.SetLevel([]misc.LogLevel{misc.INFO, misc.ERROR, misc.WARN}[i%3])
				if i%7 == 0 {
					misc.GetLogger(fmt.Sprint("made", round, i%40)).SetPrefix("q")
					loggers[2].SetPrefix("p")
				}
				runtime.Gosched()
			}
		}()
		for g := 0; g < 6; g++ {
			wg.Add(1)
			gr := h.Rand("m06c", round, g)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 120; i++ {
					id := fmt.Sprintf("id<c%d.%d.%d>", round, g, i)
					li, sev := gr.Intn(len(loggers)), gr.Intn(6)
					msg := "message " + id + " of some length"
					panicked := emit(loggers[li], sev, msg, misc.Dict{"k": i})
					if (sev == 4) != panicked {
						R.Violate("panic", fmt.Sprintf("severity %s while the level changes: panicked=%v", levels[sev].name, panicked), nil)
					}
					mu.Lock()
					if sev == 1 || sev == 2 {
						maybe[id] = true
					}
					recs = append(recs, rec{id, sev, prefixes[li], msg, []string{fmt.Sprintf("k:%d", i)}, sev >= 3})
					mu.Unlock()
					R.Count("records_logged_while_level_changes", 1)
				}
			}(g)
		}
		wg.Wait()
		close(quit)
		toggled.Wait()
		os.Stdout = real
		text := c.end()
		// what may be written or not: if it is, as if it had to be
		for i := range recs {
			if maybe[recs[i].id] && strings.Contains(text, recs[i].id) {
				recs[i].want = true
			}
		}
		judgeLog(text, recs, fmt.Sprintf("changing levels, round %d", round))
		R.Eval(fmt.Sprintf("changing|%d", round))
	}
}

func judgeLog(text string, recs []rec, where string) {
	R := h.R
	if text != "" && !strings.HasSuffix(text, "\n") {
		R.Violate("torn-line", "the output does not end with a line end", where)
	}
	lines := strings.Split(text, "\n")
	byID := map[string][]string{}
	for _, l := range lines {
		l = strings.TrimRight(l, "\r")
		if l == "" {
			continue
		}
		a := strings.Index(l, "id<")
		b := strings.Index(l, ">")
		if a < 0 || b < a {
			R.Violate("torn-line", "a line belongs to no record that was logged", fmt.Sprintf("%s: %.300q", where, l))
			continue
		}
		id := l[a : b+1]
		byID[id] = append(byID[id], l)
	}
	R.Count("lines_written", int64(len(lines)-1))
	for _, x := range recs {
		ls := byID[x.id]
		if !x.want {
			if len(ls) > 0 {
				R.Violate("below-level", fmt.Sprintf("a %s record below the configured level was written", levels[x.sev].name), fmt.Sprintf("%s: %.300q", where, ls[0]))
			}
			continue
		}
		if len(ls) == 0 {
			R.Violate("missing", fmt.Sprintf("a %s record at or above the configured level was not written", levels[x.sev].name), fmt.Sprintf("%s: %.300q", where, x.msg))
			continue
		}
		if len(ls) > 1 {
			R.Violate("repeated", fmt.Sprintf("a record was written %d times", len(ls)), fmt.Sprintf("%s: %.300q", where, ls[0]))
			continue
		}
		l := ls[0]
		if strings.Count(l, "message id<") != 1 {
			R.Violate("torn-line", "two records share a line", fmt.Sprintf("%s: %.300q", where, l))
		}
		if !strings.Contains(strings.ToLower(l[:strings.Index(l, "message id<")]), strings.ToLower(levels[x.sev].name)) {
			R.Violate("severity", fmt.Sprintf("the line does not carry severity %s", levels[x.sev].name), fmt.Sprintf("%s: %.300q", where, l))
		}
		if !strings.Contains(l, x.msg) {
			R.Violate("message", "the line does not carry the whole message", fmt.Sprintf("%s: want %.300q got %.300q", where, x.msg, l))
		}
		if x.prefix != "" && !strings.Contains(l[:strings.Index(l, "message id<")], x.prefix) {
			R.Violate("prefix", "the line does not carry the prefix "+x.prefix, fmt.Sprintf("%s: %.300q", where, l))
		}
		rest := ""
		if i := strings.Index(l, x.msg); i >= 0 {
			rest = l[i+len(x.msg):]
		}
		for _, c := range x.ctx {
			if !strings.Contains(rest, c) {
				R.Violate("context", "the line lacks the context entry "+c, fmt.Sprintf("%s: %.300q", where, l))
				break
			}
		}
	}
}

// ---- R01 (race detector over the concurrent use of this package)

func r01() {
	h.R.Rule = "the concurrent workloads of the registry, buffer pool, worker pool, shutdown and logging monitors, plus level changes, logger creation and flushing while others log, in one process under the race detector; oracle: the race detector's reports"
	m01()
	m02()
	m03()
	m04()
	for _, what := range []string{"encode", "decode", "read"} {
		codecTogether(what)
	}
	rule := h.R.Rule
	// loggers, levels, creation and flush all at once
	var wg sync.WaitGroup
	shared := []misc.Logger{misc.GetLogger().SetPrefix("p"), misc.GetLogger("s").SetPrefix("")}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		r := h.Rand("r01", g)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 400; i++ {
				l := misc.GetLogger(fmt.Sprint("l", r.Intn(40)))
				switch r.Intn(4) {
				case 0:
					l = l.SetPrefix("p")
				case 1:
					l = shared[r.Intn(2)]
					l.SetPrefix([]string{"", "p", "q"}[r.Intn(3)])
				}
				emit(l, []int{0, 1, 2, 3, 5}[r.Intn(5)], "x", misc.Dict{"k": i})
				switch r.Intn(30) {
				case 0:
					misc.SetLevel(levels[r.Intn(6)].l)
				case 1:
					misc.Close()
				}
				h.R.Count("log_calls", 1)
			}
		}(g)
	}
	wg.Wait()
	misc.SetLevel(misc.INFO)
	sc := h.Scenario
	h.Scenario = "short"
	m07()
	h.Scenario = sc
	m05()
	h.R.Rule = rule
}
