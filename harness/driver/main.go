// The driver of one check: builds the workers from /repo's working tree, runs
// them, reads what their monitors observed, and gives the verdict.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Violation struct {
	Key     string      `json:"key"`
	Desc    string      `json:"desc"`
	Witness interface{} `json:"witness,omitempty"`
	Step    string      `json:"step,omitempty"`
}

type Report struct {
	Prop         string           `json:"property"`
	Done         bool             `json:"done"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     int64            `json:"distinct_nontrivial"`
	Rule         string           `json:"rule"`
	Samples      []interface{}    `json:"samples"`
	Counters     map[string]int64 `json:"counters"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Exhaustive   bool             `json:"exhaustive"`
	Assumptions  []string         `json:"assumptions"`
}

var (
	verif   string
	scratch string
	tier    = "quick"
	seed    int64
	started = time.Now()
)

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 4 {
		fail("usage: driver VERIF SCRATCH PROPERTY")
	}
	verif, scratch = os.Args[1], os.Args[2]
	prop := os.Args[3]
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fail("VERIF_SEED: %v", err)
		}
		seed = n
	}
	p, ok := plans[prop]
	if !ok {
		fail("no plan for property %q", prop)
	}
	var steps []Step
	for _, s := range p {
		if !s.ThoroughOnly || tier == "thorough" {
			steps = append(steps, s)
		}
	}
	build(steps)
	buildS := time.Since(started).Seconds()

	total := &Report{Prop: prop, Counters: map[string]int64{}}
	var rules []string
	wasted := ""
	known := knownFindings(prop)
	for i := 0; i < len(steps); i++ {
		s := steps[i]
		r, vs := run(prop, i, s)
		bad := false
		for _, v := range vs {
			v.Step = s.name()
			total.Violations = append(total.Violations, v)
			if _, ok := known[v.Key]; !ok {
				bad = true
			}
		}
		if bad {
			// decided
			steps = steps[:i+1]
		}
		if r == nil {
			continue
		}
		total.Evaluations += r.Evaluations
		total.Distinct += r.Distinct
		for k, n := range r.Counters {
			if len(steps) > 1 {
				k = s.name() + "." + k
			}
			total.Counters[k] += n
		}
		dup := false
		for _, x := range rules {
			dup = dup || x == r.Rule
		}
		if r.Rule != "" && !dup {
			rules = append(rules, r.Rule)
		}
		total.Samples = append(total.Samples, r.Samples...)
		total.Assumptions = append(total.Assumptions, r.Assumptions...)
		for _, x := range r.Inconclusive {
			total.Inconclusive = append(total.Inconclusive, s.name()+": "+x)
		}
		if r.Evaluations == 0 && len(vs) == 0 {
			wasted = s.name()
		}
	}
	total.Rule = strings.Join(rules, "; ")

	printed := map[string]bool{}
	var open []Violation
	for _, v := range total.Violations {
		if k, ok := known[v.Key]; ok {
			if !printed[v.Key] {
				printed[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			}
			continue
		}
		open = append(open, v)
	}
	writeEvidence(total, open, printed, buildS)
	if len(open) > 0 {
		path := writeReplay(total, open)
		for i, v := range open {
			if i == 8 {
				fmt.Printf("  ... and %d more\n", len(open)-i)
				break
			}
			fmt.Printf("  %s [%s]: %s\n", v.Key, v.Step, short(v.Desc, 600))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		os.Exit(1)
	}
	if wasted != "" {
		fail("step %s judged nothing", wasted)
	}
	fmt.Printf("ok property=%s evaluations=%d distinct=%d wall=%.1fs\n", prop, total.Evaluations, total.Distinct, time.Since(started).Seconds())
	os.Exit(0)
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- building

func build(steps []Step) {
	mod := filepath.Join(scratch, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(verif, "harness", f))
		if err != nil {
			fail("%v", err)
		}
		if err := os.WriteFile(filepath.Join(scratch, f), b, 0644); err != nil {
			fail("%v", err)
		}
	}
	type target struct {
		out, pkg string
		race     bool
	}
	targets := map[string]target{}
	add := func(name string, race bool) string {
		out := name
		if race {
			out += ".race"
		}
		pkg := "./" + name
		if name == "crawler" {
			pkg = "github.com/GalaIO/P2Pcrawler"
		}
		targets[out] = target{filepath.Join(scratch, out), pkg, race}
		return out
	}
	for _, s := range steps {
		add(s.Worker, s.Race)
		if s.Crawler {
			add("crawler", s.CrawlerRace)
		}
		if s.Cfg {
			add("wcfg", false)
		}
	}
	var names []string
	for n := range targets {
		names = append(names, n)
	}
	sort.Strings(names)
	type res struct {
		name string
		out  []byte
		err  error
	}
	// unexported code is reached through an accessor added by an overlay; when
	// that does not build (a rename), the worker does without it
	overlay := filepath.Join(scratch, "overlay.json")
	ob, _ := json.Marshal(map[string]map[string]string{"Replace": {"/repo/dht/verif_export.go": filepath.Join(verif, "harness", "export", "dht.go.txt")}})
	if err := os.WriteFile(overlay, ob, 0644); err != nil {
		fail("%v", err)
	}
	one := func(n string, exported bool) res {
		t := targets[n]
		args := []string{"build", "-modfile", mod, "-o", t.out}
		if exported {
			args = append(args, "-overlay", overlay, "-tags", "verifexport")
		}
		if t.race {
			args = append(args, "-race")
		}
		args = append(args, t.pkg)
		cmd := exec.Command("go", args...)
		cmd.Dir = filepath.Join(verif, "harness")
		out, err := cmd.CombinedOutput()
		return res{n, out, err}
	}
	// sequential: each build uses all cores and feeds the next one's cache
	for _, n := range names {
		if strings.HasPrefix(n, "wdht") && one(n, true).err == nil {
			continue
		}
		if r := one(n, false); r.err != nil {
			fail("building %s: %v\n%s", r.name, r.err, r.out)
		}
	}
}

// ---- running one worker

func run(prop string, idx int, s Step) (*Report, []Violation) {
	dir := filepath.Join(scratch, fmt.Sprintf("run%d", idx))
	if err := os.MkdirAll(filepath.Join(dir, "conf"), 0755); err != nil {
		fail("%v", err)
	}
	conf := s.Conf
	if conf == "" {
		conf = defaultConf
	}
	if err := os.WriteFile(filepath.Join(dir, "conf", "config.json"), []byte(conf), 0644); err != nil {
		fail("%v", err)
	}
	out := filepath.Join(dir, "report.json")
	bin := filepath.Join(scratch, s.Worker)
	if s.Race {
		bin += ".race"
	}
	cmd := exec.Command(bin, "-prop", prop, "-scenario", s.Scenario, "-tier", tier, "-seed", fmt.Sprint(seed+int64(idx)*7919), "-out", out, "-scratch", dir)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	raceLog := filepath.Join(dir, "race")
	env := append(os.Environ(),
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+raceLog,
		"GOTRACEBACK=all",
	)
	crawler := filepath.Join(scratch, "crawler")
	if s.CrawlerRace {
		crawler += ".race"
	}
	env = append(env, "VERIF_CRAWLER="+crawler, "VERIF_WCFG="+filepath.Join(scratch, "wcfg"))
	var keys []string
	for k := range knownFindings(prop) {
		keys = append(keys, k)
	}
	env = append(env, "VERIF_KNOWN="+strings.Join(keys, " "))
	env = append(env, s.Env...)
	cmd.Env = env
	stderr := filepath.Join(dir, "stderr")
	ef, err := os.Create(stderr)
	if err != nil {
		fail("%v", err)
	}
	cmd.Stderr = ef
	if err := cmd.Start(); err != nil {
		fail("starting %s: %v", bin, err)
	}
	limit := s.Timeout
	if limit == 0 {
		limit = 240 * time.Second
	}
	if tier == "thorough" {
		limit *= 12
	} else if left := 840*time.Second - time.Since(started); limit > left {
		limit = left
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	var werr error
	select {
	case werr = <-done:
	case <-time.After(limit):
		timedOut = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case werr = <-done:
		case <-time.After(10 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			werr = <-done
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	ef.Close()

	var vs []Violation
	var rep *Report
	if b, err := os.ReadFile(out); err == nil {
		rep = &Report{}
		if err := json.Unmarshal(b, rep); err != nil {
			fail("report of %s: %v", s.name(), err)
		}
		vs = append(vs, rep.Violations...)
	}
	errText := tail(stderr, 200000)
	if rep == nil || !rep.Done {
		code := -1
		if cmd.ProcessState != nil {
			code = cmd.ProcessState.ExitCode()
		}
		switch {
		case timedOut:
			vs = append(vs, Violation{Key: "hang", Desc: fmt.Sprintf("the workload did not end within %v", limit), Witness: witness(dir, errText)})
		case code == 97 || strings.Contains(errText, "HARNESS-ERROR"):
			fail("worker %s: %s", s.name(), last(errText, 3000))
		case cmd.ProcessState != nil && cmd.ProcessState.Sys().(syscall.WaitStatus).Signaled() && cmd.ProcessState.Sys().(syscall.WaitStatus).Signal() == syscall.SIGKILL:
			fail("worker %s was killed (memory?): %s", s.name(), last(errText, 1000))
		case harnessPanic(errText):
			fail("worker %s failed in the harness (%v): %s", s.name(), werr, head(errText, 4000))
		default:
			vs = append(vs, Violation{Key: "crash", Desc: fmt.Sprintf("the process running the code died (exit %d): %s", code, crashLine(errText)), Witness: witness(dir, errText)})
		}
	}
	if rep == nil {
		rep = &Report{Counters: map[string]int64{}}
	}
	if rep.Counters == nil {
		rep.Counters = map[string]int64{}
	}
	races, harnessRaces := raceReports(raceLog)
	if s.Race || s.CrawlerRace {
		rep.Counters["race_detector_reports"] += int64(len(races))
		rep.Counters["race_detector_on"] = 1
	}
	if harnessRaces > 0 {
		fail("worker %s: %d data races inside the harness itself, see %s*", s.name(), harnessRaces, raceLog)
	}
	if s.RaceViolates {
		for i, b := range races {
			if i == 10 {
				break
			}
			vs = append(vs, Violation{Key: "data-race", Desc: "data race: " + raceSummary(b), Witness: b})
		}
	}
	return rep, vs
}

func witness(dir, errText string) interface{} {
	j, _ := os.ReadFile(filepath.Join(dir, "report.json.journal"))
	return map[string]string{"last_step": strings.TrimSpace(string(j)), "stderr": head(errText, 20000)}
}

func tail(path string, n int64) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	st, _ := f.Stat()
	// keep the start of a Go crash dump: it follows the last ordinary line
	b := make([]byte, st.Size())
	if st.Size() > 64<<20 {
		b = b[:64<<20]
	}
	k, _ := f.Read(b)
	b = b[:k]
	if i := bytes.LastIndex(b, []byte("\npanic: ")); i >= 0 {
		b = b[i+1:]
	} else if i := bytes.LastIndex(b, []byte("\nfatal error: ")); i >= 0 {
		b = b[i+1:]
	} else if int64(len(b)) > n {
		b = b[int64(len(b))-n:]
	}
	if int64(len(b)) > n {
		b = b[:n]
	}
	return string(b)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func last(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func crashLine(s string) string {
	sc := bufio.NewScanner(strings.NewReader(s))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "runtime error") || strings.Contains(l, "stack overflow") {
			return short(l, 300)
		}
	}
	return short(strings.TrimSpace(last(s, 300)), 300)
}

// harnessPanic tells whether the innermost frame that is neither the runtime
// nor the standard library belongs to the harness.
func harnessPanic(s string) bool {
	i := strings.Index(s, "panic: ")
	if i < 0 {
		i = strings.Index(s, "fatal error: ")
	}
	if i < 0 {
		return false
	}
	if j := strings.Index(s[i:], "\ngoroutine "); j >= 0 {
		i += j
	}
	for n, l := range strings.Split(s[i:], "\n") {
		if n > 400 {
			break
		}
		if n > 2 && strings.HasPrefix(l, "goroutine ") {
			break
		}
		if strings.Contains(l, "github.com/GalaIO/P2Pcrawler") {
			return false
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verifharness/") {
			return true
		}
	}
	return false
}

var frameRe = regexp.MustCompile(`(?m)^  (\S+)\(`)

// raceReports splits the race detector's logs into reports that involve the
// code under test and ones that are only about the harness.
func raceReports(prefix string) (mine []string, harness int) {
	files, _ := filepath.Glob(prefix + ".*")
	sort.Strings(files)
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			// only the two accesses, not where the goroutines were created
			acc := blk
			if i := strings.Index(acc, "\nGoroutine "); i >= 0 {
				acc = acc[:i]
			}
			if !strings.Contains(acc, "github.com/GalaIO/P2Pcrawler/") && !strings.Contains(blk, "github.com/GalaIO/P2Pcrawler/") {
				harness++
				continue
			}
			sum := raceSummary(blk)
			if seen[sum] {
				continue
			}
			seen[sum] = true
			mine = append(mine, head(strings.TrimSpace(blk), 6000))
		}
	}
	return
}

func raceSummary(blk string) string {
	var tops []string
	for _, part := range strings.Split(blk, "\n\n") {
		part = strings.TrimLeft(part, "\n")
		if strings.HasPrefix(part, "Goroutine ") {
			break
		}
		m := frameRe.FindAllStringSubmatch(part, -1)
		if len(m) == 0 {
			continue
		}
		top := m[0][1]
		for _, x := range m {
			if strings.Contains(x[1], "GalaIO/P2Pcrawler") {
				top = x[1]
				break
			}
		}
		tops = append(tops, strings.TrimPrefix(top, "github.com/GalaIO/P2Pcrawler/"))
	}
	sort.Strings(tops)
	return strings.Join(tops, " / ")
}

// ---- results

func knownFindings(prop string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> <what fails>
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			res[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return res
}

func writeEvidence(r *Report, open []Violation, known map[string]bool, buildS float64) {
	samples := r.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"evaluations":         r.Evaluations,
		"distinct_nontrivial": r.Distinct,
		"rule":                r.Rule,
		"samples":             samples,
		"counters":            r.Counters,
	}
	if len(r.Inconclusive) > 0 {
		cov["inconclusive"] = r.Inconclusive
	}
	if len(known) > 0 {
		var k []string
		for s := range known {
			k = append(k, s)
		}
		cov["known_findings_observed"] = k
	}
	ev := map[string]interface{}{
		"property":    r.Prop,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": append([]string{"the observed executions are what the verdict is about; schedules and inputs not executed are not covered"}, r.Assumptions...),
		"wall_s":      time.Since(started).Seconds(),
		"build_s":     buildS,
		"violations":  len(open),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail("%v", err)
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0644); err != nil {
		fail("%v", err)
	}
}

func writeReplay(r *Report, open []Violation) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-%s.json", r.Prop, seed, tier))
	b, err := json.MarshalIndent(map[string]interface{}{
		"property":   r.Prop,
		"rerun":      fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_TIER=%s bash check.sh %s", verif, seed, tier, r.Prop),
		"violations": open,
	}, "", " ")
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fail("%v", err)
	}
	return path
}
