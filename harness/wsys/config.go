package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/h"
	"verifharness/peersim"
	"verifharness/ref"
	"verifharness/udpx"
)

// ---- G01

type setting struct {
	section, name string
	def           interface{} // as JSON decodes it
	draw          func(r *rand.Rand) interface{}
}

func num(max int) func(r *rand.Rand) interface{} {
	return func(r *rand.Rand) interface{} {
		switch r.Intn(6) {
		case 0:
			return float64(1)
		case 1:
			return float64(max)
		}
		return float64(1 + r.Intn(max))
	}
}

var settings = []setting{
	{"dht", "Port", 21000.0, num(65535)},
	{"dht", "WorkPoolSize", 2000.0, num(100000)},
	{"dht", "BootstrapNodes", []interface{}{"87.98.162.88:6881"}, func(r *rand.Rand) interface{} {
		l := []interface{}{}
		for k := r.Intn(5); k > 0; k-- {
			l = append(l, []string{"10.1.2.3:1", "router.example.org:6881", "[2001:db8::7]:6881", "255.255.255.255:65535", "Mixed.Case.Example:99"}[r.Intn(5)])
		}
		return l
	}},
	{"fetchTorrent", "InfoHashQueueSize", 300000.0, num(1 << 30)},
	{"fetchTorrent", "WorkPoolSize", 500.0, num(100000)},
	{"pprof", "NeedRun", true, func(r *rand.Rand) interface{} { return r.Intn(3) == 0 }},
	{"logger", "Level", "Info", func(r *rand.Rand) interface{} {
		return []string{"Debug", "INFO", "info", "Warn", "Error", "panic", "Trace", "eRRor", ""}[r.Intn(9)]
	}},
}

func anyCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return s
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		} else {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

// drawConf makes a configuration text, and what it must mean.
func drawConf(r *rand.Rand) (text []byte, want map[string]map[string]interface{}, class string) {
	want = map[string]map[string]interface{}{}
	doc := map[string]map[string]interface{}{}
	names := map[string]string{}
	for _, s := range []string{"dht", "fetchTorrent", "pprof", "logger"} {
		names[s] = anyCase(r, s)
		if r.Intn(4) == 0 {
			doc[names[s]] = map[string]interface{}{} // present and maybe empty
		}
	}
	p := []int{0, 2, 5, 8, 10}[r.Intn(5)]
	for _, s := range settings {
		if want[s.section] == nil {
			want[s.section] = map[string]interface{}{}
		}
		want[s.section][s.name] = s.def
		class += "-"
		if r.Intn(10) >= p {
			continue
		}
		v := s.draw(r)
		want[s.section][s.name] = v
		sec := names[s.section]
		if doc[sec] == nil {
			doc[sec] = map[string]interface{}{}
		}
		doc[sec][anyCase(r, s.name)] = v
		class = class[:len(class)-1] + "x"
		if reflect.DeepEqual(v, s.def) {
			class += "="
		}
	}
	if r.Intn(4) == 0 {
		doc["unknown"] = map[string]interface{}{"port": 1, "level": "x", "WorkPoolSize": 3}
	}
	if r.Intn(4) == 0 && doc[names["dht"]] != nil {
		doc[names["dht"]]["unknownSetting"] = "5"
	}
	if r.Intn(2) == 0 {
		text, _ = json.Marshal(doc)
	} else {
		text, _ = json.MarshalIndent(doc, "\t", "  ")
	}
	return
}

func wcfgBin() string {
	b := os.Getenv("VERIF_WCFG")
	if b == "" {
		h.Fatal("VERIF_WCFG is not set")
	}
	return b
}

var foreignEnv = []string{"PORT=7", "LEVEL=Panic", "DHT=x", "DHT.PORT=1", "DHT_PORT=2", "DHT.WORKPOOLSIZE=3", "LOGGER.LEVEL=Panic", "LOGGER_LEVEL=Panic", "PPROF.NEEDRUN=false", "PPROF_NEEDRUN=false",
	"FETCHTORRENT.WORKPOOLSIZE=4", "FETCHTORRENT_WORKPOOLSIZE=4", "FETCHTORRENT.INFOHASHQUEUESIZE=5", "WORKPOOLSIZE=6", "NEEDRUN=false", "CONFIG=/nowhere", "BOOTSTRAPNODES=1.2.3.4:5"}

// misfit is a document with one value nothing can be made of.
func misfit(r *rand.Rand) []byte {
	ints := []string{`"many"`, `{"a":1}`, `[1,2]`, `"12x"`, `{}`}
	bad := []string{
		`{"dht":{"Port":%s}}`, `{"DHT":{"WorkPoolSize":%s,"port":5000}}`, `{"fetchTorrent":{"InfoHashQueueSize":%s}}`, `{"fetchtorrent":{"workPoolSize":%s},"dht":{}}`,
	}
	switch r.Intn(6) {
	case 0:
		return []byte(fmt.Sprintf(`{"pprof":{"NeedRun":%s}}`, []string{`"perhaps"`, `{"a":1}`, `[1,2]`}[r.Intn(3)]))
	case 1:
		return []byte(fmt.Sprintf(`{"logger":{"Level":%s}}`, []string{`{"a":1}`, `["x","y"]`}[r.Intn(2)]))
	}
	return []byte(fmt.Sprintf(bad[r.Intn(len(bad))], ints[r.Intn(len(ints))]))
}

// effective runs the accessors in dir.
func effective(dir string) (map[string]map[string]interface{}, error, string) {
	out := filepath.Join(dir, "effective.json")
	os.Remove(out)
	c := exec.Command(wcfgBin(), out)
	c.Dir = dir
	// settings come from the file alone
	c.Env = append(os.Environ(), foreignEnv...)
	text, err := c.CombinedOutput()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			h.Fatal("wcfg: %v", err)
		}
		return nil, err, string(text)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		h.Fatal("wcfg wrote nothing: %v", err)
	}
	m := map[string]map[string]interface{}{}
	if err := json.Unmarshal(b, &m); err != nil {
		h.Fatal("wcfg: %v", err)
	}
	return m, nil, string(text)
}

// differ names the first setting that is not as wanted.
func differ(got, want map[string]map[string]interface{}) string {
	for _, s := range settings {
		g, w := got[s.section][s.name], want[s.section][s.name]
		if l, ok := w.([]interface{}); ok && len(l) == 0 {
			if g == nil {
				continue
			}
			if x, ok := g.([]interface{}); ok && len(x) == 0 {
				continue
			}
		}
		if !reflect.DeepEqual(g, w) {
			return fmt.Sprintf("%s.%s is %v, expected %v", s.section, s.name, g, w)
		}
	}
	return ""
}

func g01() {
	R := h.R
	R.Rule = "configuration files with any subset of settings in any letter case, no file, unparsable files, files named on the command line against contradicting files in the default place; distinct = subset of settings x kind of run; oracle: accessor values, and the running program's port, bootstrap datagrams, log lines, simultaneous connections, queue bound and profiling port"
	stop := h.Guard("hang", "configuration runs", time.Duration(h.N(280, 3000))*time.Second)
	defer stop()
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < h.N(1500, 40000) && R.Bad() < 3; i += 6 {
				g01file(h.Rand("file", i), i)
			}
		}(w)
	}
	wg.Wait()
	for i := 0; i < 6 && R.Bad() < 3; i++ {
		g01default(i)
	}
	for i := 0; i < h.N(60, 600) && R.Bad() < 3; i++ {
		g01broken(h.Rand("broken", i), i)
	}
	for i := 0; i < h.N(40, 400) && R.Bad() < 3; i++ {
		text := misfit(h.Rand("misfit", i))
		dir := newDir()
		os.WriteFile(filepath.Join(dir, "conf", "config.json"), text, 0644)
		if got, err, _ := effective(dir); err == nil {
			R.Violate("misfit-accepted", "a configuration with a value nothing can be made of was accepted", map[string]string{"file": string(text), "settings": fmt.Sprint(got)})
		}
		os.RemoveAll(dir)
		R.Eval("misfit|" + string(text))
		R.Count("misfit_values_refused", 1)
	}
	for i := 0; i < h.N(14, 150) && R.Bad() < 3; i++ {
		g01real(h.Rand("real", i), i)
	}
	g01pools()
}

func g01file(r *rand.Rand, i int) {
	R := h.R
	text, want, class := drawConf(r)
	dir := newDir()
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "conf", "config.json"), text, 0644)
	got, err, out := effective(dir)
	if err != nil {
		R.Violate("refused", "a configuration file was refused: "+err.Error(), map[string]string{"file": string(text), "output": trim(out)})
		return
	}
	if bad := differ(got, want); bad != "" {
		R.Violate("setting", bad, map[string]string{"file": string(text)})
	}
	R.Eval("file|" + class)
	if i < 2 {
		R.Sample(map[string]string{"file": string(text)})
	}
}

func defaults() map[string]map[string]interface{} {
	want := map[string]map[string]interface{}{}
	for _, s := range settings {
		if want[s.section] == nil {
			want[s.section] = map[string]interface{}{}
		}
		want[s.section][s.name] = s.def
	}
	return want
}

// g01default: no file, with and without its directory.
func g01default(i int) {
	R := h.R
	dir := newDir()
	defer os.RemoveAll(dir)
	if i%2 == 0 {
		os.Remove(filepath.Join(dir, "conf"))
	}
	path := filepath.Join(dir, "conf", "config.json")
	if i >= 4 {
		// the program itself, in a way that starts nothing
		out, errOut, code := runTool(dir, "version")
		if code != 0 {
			R.Violate("version", fmt.Sprintf("without a configuration file the program failed: %d", code), trim(out+errOut))
			return
		}
	} else {
		got, err, out := effective(dir)
		if err != nil {
			R.Violate("no-file", "without a configuration file the program failed: "+err.Error(), trim(out))
			return
		}
		if bad := differ(got, defaults()); bad != "" {
			R.Violate("default", "without a configuration file "+bad, nil)
		}
	}
	b, err := os.ReadFile(path)
	if err != nil {
		R.Violate("default-file", "no default configuration file was written: "+err.Error(), nil)
		return
	}
	var doc map[string]map[string]interface{}
	if err := json.Unmarshal(b, &doc); err != nil {
		R.Violate("default-file", "the default configuration file does not parse: "+err.Error(), string(b))
		return
	}
	low := map[string]interface{}{}
	for sec, m := range doc {
		for k, v := range m {
			low[strings.ToLower(sec+"."+k)] = v
		}
	}
	exp := map[string]interface{}{}
	for _, s := range settings {
		exp[strings.ToLower(s.section+"."+s.name)] = s.def
	}
	if !reflect.DeepEqual(low, exp) {
		R.Violate("default-file", "the default configuration file does not hold exactly the defaults", string(b))
	}
	got, err, out := effective(dir)
	if err != nil {
		R.Violate("default-file", "the written configuration file is refused: "+err.Error(), trim(out))
		return
	}
	if bad := differ(got, defaults()); bad != "" {
		R.Violate("default-file", "read back from the written file "+bad, string(b))
	}
	R.Eval(fmt.Sprintf("default|%d", i))
}

// breakText makes the configuration something that is no JSON document.
func breakText(r *rand.Rand, text []byte) ([]byte, string) {
	s := strings.TrimSpace(string(text))
	switch r.Intn(5) {
	case 0:
		return []byte(s[:len(s)-1-r.Intn(len(s)-1)]), "cut short"
	case 1:
		return []byte{}, "empty"
	case 2:
		return append([]byte(s), "}"...), "one brace too many"
	case 3:
		return []byte(strings.Replace(s, ":", "=", 1) + " "), "no colon"
	}
	return append([]byte{'#'}, h.Bytes(r, 40)...), "random"
}

func g01broken(r *rand.Rand, i int) {
	R := h.R
	text, _, _ := drawConf(r)
	if len(text) < 8 {
		text = []byte(`{"dht":{"Port":1234}}`)
	}
	bad, what := breakText(r, text)
	if what == "no colon" && !strings.Contains(string(text), ":") {
		return
	}
	dir := newDir()
	defer os.RemoveAll(dir)
	conf := filepath.Join(dir, "conf", "config.json")
	if i%4 == 3 {
		// the program, the file named on the command line
		boot := bootNode("127.0.0.1")
		defer boot.Close()
		port := udpx.FreePort()
		os.WriteFile(conf, Conf{Port: port, Bootstrap: []string{boot.addr()}}.json(), 0644)
		file := filepath.Join(dir, "other.json")
		os.WriteFile(file, bad, 0644)
		p := launch(dir, "--config", file)
		p.Port = port
		select {
		case <-p.done:
		case <-time.After(15 * time.Second):
		}
		if !p.exited() {
			p.Kill()
			R.Violate("broken-runs", fmt.Sprintf("the program runs although the file named on the command line is unparsable (%s)", what), string(bad))
			return
		}
		if p.err == nil {
			R.Violate("broken-status", fmt.Sprintf("an unparsable file (%s): the program ended with status zero", what), string(bad))
		}
		if boot.count() > 0 {
			R.Violate("broken-runs", fmt.Sprintf("an unparsable file (%s): the program contacted bootstrap nodes of other settings", what), string(bad))
		}
		R.Eval("broken|command line|" + what)
		return
	}
	os.WriteFile(conf, bad, 0644)
	got, err, _ := effective(dir)
	if err == nil {
		R.Violate("broken-accepted", fmt.Sprintf("an unparsable configuration file (%s) was accepted", what), map[string]interface{}{"file": string(bad), "settings": got})
	}
	R.Eval("broken|" + what)
}

// bootstrap node that counts and never answers
type boot struct {
	s *udpx.Sock
	n int64
}

func bootNode(ip string) *boot {
	b := &boot{}
	s, err := udpx.Listen(ip, 0, func(p udpx.Packet) {
		v, _, st := ref.Parse(string(p.B))
		if st != ref.OK {
			return
		}
		if q, _ := v.Str("q"); q == "find_node" {
			atomic.AddInt64(&b.n, 1)
		}
	})
	if err != nil {
		h.Fatal("bootstrap node: %v", err)
	}
	b.s = s
	return b
}

func (b *boot) addr() string { return b.s.Addr.String() }
func (b *boot) count() int   { return int(atomic.LoadInt64(&b.n)) }
func (b *boot) Close()       { b.s.Close() }

func udpFree(port int) bool {
	c, err := net.ListenUDP("udp", &net.UDPAddr{Port: port})
	if err != nil {
		return false
	}
	c.Close()
	return true
}

func tcpFree(port int) bool {
	l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
	if err != nil {
		return false
	}
	l.Close()
	return true
}

func sizeOf(p *Proc) int64 {
	st, err := os.Stat(filepath.Join(p.Dir, "stdout"))
	if err != nil {
		return 0
	}
	return st.Size()
}

// g01real observes the running program's settings from outside.
func g01real(r *rand.Rand, i int) {
	R := h.R
	const pprofPort = 10080
	dir := newDir()
	var boots, decoys []*boot
	var bootAddrs, decoyAddrs []string
	for k := r.Intn(4); k >= 0; k-- {
		b := bootNode(ip4(127, 0, r.Intn(256), 1+r.Intn(250)))
		boots = append(boots, b)
		bootAddrs = append(bootAddrs, b.addr())
	}
	for k := 0; k < 2; k++ {
		b := bootNode("127.0.0.1")
		decoys = append(decoys, b)
		decoyAddrs = append(decoyAddrs, b.addr())
	}
	defer func() {
		for _, b := range append(boots, decoys...) {
			b.Close()
		}
	}()
	port, decoyPort := udpx.FreePort(), udpx.FreePort()
	if low := 1 + r.Intn(1023); i%2 == 0 && udpFree(low) {
		port = low // if this user may
	}
	fetchers := []int{1, 3, 17, 40}[r.Intn(4)]
	queue := []int{5, 60, 300}[r.Intn(3)]
	level := []string{"Debug", "info", "WARN", "Error", "panic", "Trace"}[i%6]
	needRun := i%3 == 0
	doc := map[string]interface{}{}
	sec := func(s string, kv ...interface{}) {
		m := map[string]interface{}{}
		for k := 0; k < len(kv); k += 2 {
			m[anyCase(r, kv[k].(string))] = kv[k+1]
		}
		doc[anyCase(r, s)] = m
	}
	omit := ""
	switch {
	case i%7 == 1 && udpFree(21000):
		omit = "port"
		sec("dht", "BootstrapNodes", bootAddrs)
		port = 21000
	case i%7 == 2:
		omit = "level"
		level = "Info"
		sec("dht", "Port", port, "WorkPoolSize", 30, "BootstrapNodes", bootAddrs)
	case i%7 == 3:
		omit = "fetchers"
		fetchers = 500
		sec("dht", "Port", port, "BootstrapNodes", bootAddrs)
	case i%7 == 4:
		omit = "pprof"
		needRun = true
		sec("dht", "BootstrapNodes", bootAddrs, "Port", port)
	case i%7 == 5:
		// no other node to start from
		for _, b := range boots {
			b.Close()
		}
		boots, bootAddrs = nil, []string{}
		sec("dht", "BootstrapNodes", bootAddrs, "Port", port)
	default:
		sec("dht", "Port", port, "WorkPoolSize", 40, "BootstrapNodes", bootAddrs)
	}
	if omit == "fetchers" {
		sec("fetchTorrent", "InfoHashQueueSize", queue)
	} else {
		sec("fetchTorrent", "InfoHashQueueSize", queue, "WorkPoolSize", fetchers)
	}
	if omit != "pprof" {
		sec("pprof", "NeedRun", needRun)
	}
	if omit != "level" {
		sec("logger", "Level", level)
	}
	text, _ := json.Marshal(doc)
	other, _ := json.Marshal(map[string]interface{}{
		"dht":          map[string]interface{}{"Port": decoyPort, "WorkPoolSize": 7, "BootstrapNodes": decoyAddrs},
		"fetchTorrent": map[string]interface{}{"InfoHashQueueSize": 100000, "WorkPoolSize": fetchers + 90},
		"pprof":        map[string]interface{}{"NeedRun": !needRun},
		"logger":       map[string]interface{}{"Level": map[bool]string{true: "Panic", false: "Debug"}[shows(level)]},
	})
	var args []string
	mode := "default place"
	conf := filepath.Join(dir, "conf", "config.json")
	if i%4 == 0 {
		os.WriteFile(conf, text, 0644)
	} else {
		mode = "command line"
		os.MkdirAll(filepath.Join(dir, "sub"), 0755)
		file := []string{filepath.Join(dir, "sub", "my.json"), "sub/my.json", "./mine.json"}[r.Intn(3)]
		abs := file
		if !filepath.IsAbs(file) {
			abs = filepath.Join(dir, file)
		}
		os.WriteFile(abs, text, 0644)
		if i%4 != 3 {
			os.WriteFile(conf, other, 0644)
		}
		args = []string{"--config", file}
		if r.Intn(2) == 0 {
			args = []string{"--config=" + file}
		}
	}
	profFree := tcpFree(pprofPort)
	p := launch(dir, args...)
	defer p.Kill()
	p.Port, p.Addr = port, udpx.Loop(port)
	w := map[string]string{"file": string(text), "mode": mode, "default place": string(other)}
	if !p.ready(20 * time.Second) {
		if p.exited() && strings.Contains(p.Stderr(), "address already in use") {
			return
		}
		R.Violate("port", fmt.Sprintf("(%s) the program does not answer on its configured port %d (%s)", mode, port, p.status()), w)
		return
	}
	if mode == "command line" && !udpFree(decoyPort) {
		R.Violate("port", "the port of the file in the default place is in use too", w)
	}
	if !h.Wait(10*time.Second, func() bool {
		for _, b := range boots {
			if b.count() == 0 {
				return false
			}
		}
		return true
	}) {
		R.Violate("bootstrap", fmt.Sprintf("(%s) a configured bootstrap node was not contacted", mode), w)
	}
	for _, b := range decoys {
		if b.count() > 0 {
			R.Violate("bootstrap", fmt.Sprintf("(%s) a bootstrap node of the other file was contacted", mode), w)
		}
	}
	// log lines
	time.Sleep(30 * time.Millisecond)
	was := sizeOf(p)
	for k := 0; k < 5; k++ {
		p.Pings(10 * time.Second)
	}
	if shows(level) {
		if !h.Wait(5*time.Second, func() bool { return sizeOf(p) > was }) {
			R.Violate("level", fmt.Sprintf("(%s) level %s: answering queries left no information lines", mode, level), w)
		}
	} else if now := sizeOf(p); now > was {
		R.Violate("level", fmt.Sprintf("(%s) level %s: answering queries left information lines", mode, level), w)
	}
	// profiling port
	if profFree {
		get := func() bool {
			c := http.Client{Timeout: 2 * time.Second}
			x, err := c.Get(fmt.Sprintf("http://127.0.0.1:%d/debug/pprof/", pprofPort))
			if err != nil {
				return false
			}
			x.Body.Close()
			return x.StatusCode == 200
		}
		if needRun {
			if !h.Wait(5*time.Second, get) {
				R.Violate("pprof", fmt.Sprintf("(%s) profiling is configured but not served", mode), w)
			}
		} else if get() {
			R.Violate("pprof", fmt.Sprintf("(%s) profiling is served though switched off", mode), w)
		}
	}
	// simultaneous fetches
	over, under := 0, 0
	var seen []int
	for k := 0; k < 3; k++ {
		n := atOnce(p, fetchers, h.Rand("atonce", i, k))
		seen = append(seen, n)
		if n > fetchers {
			over++
		} else if n < fetchers && n < queue {
			under++
		} else {
			break
		}
	}
	if over == 3 || under == 3 {
		R.Violate("fetchers", fmt.Sprintf("(%s) %d simultaneous fetches were configured, %v took place", mode, fetchers, seen), w)
	}
	// queue bound
	if fetchers <= 17 && queue <= 60 {
		off := 0
		var seen []string
		for k := 0; k < 3; k++ {
			n, ok := queued(p, fetchers, queue, h.Rand("queued", i, k))
			if !ok {
				R.Unclear("the announcements took too long to be accepted")
				continue
			}
			seen = append(seen, fmt.Sprint(n))
			// running, submitted and in hand
			if n < queue || n > queue+2*fetchers+8 {
				off++
			} else {
				off = 0
				break
			}
		}
		if off == 3 {
			R.Violate("queue", fmt.Sprintf("(%s) a queue of %d was configured, behind %d busy fetchers there was room for %s", mode, queue, fetchers, strings.Join(seen, ", ")), w)
		}
	}
	p.Alive("being configured")
	R.Eval(fmt.Sprintf("real|%s|%s|%s|%d|%d|%v|%d", mode, omit, level, fetchers, queue, needRun, len(bootAddrs)))
	R.Count("runs_of_the_program", 1)
}

func shows(level string) bool {
	l := strings.ToLower(level)
	return l == "debug" || l == "info"
}

// atOnce tells how many connections start before the first can have ended.
func atOnce(p *Proc, fetchers int, r *rand.Rand) int {
	time.Sleep(1300 * time.Millisecond) // earlier fetches end
	srv := peerAt("127.0.0.1", 0)
	defer srv.Close()
	srv.Default = func(c *peersim.Conn) { c.Gone(20 * time.Second) }
	c := newClient("127.0.0.1", 0, r)
	defer c.S.Close()
	n := fetchers + 60
	for i := 0; i < n; i++ {
		c.S.Send(announce(c.Tid(), c.Id, string(h.Bytes(r, 20)), srv.Port(), nil), p.Addr)
		if i%50 == 49 {
			time.Sleep(10 * time.Millisecond)
		}
	}
	time.Sleep(900 * time.Millisecond)
	m, _ := srv.All()
	var at []time.Time
	for _, l := range m {
		for _, x := range l {
			at = append(at, x.At)
		}
	}
	if len(at) == 0 {
		return 0
	}
	first := at[0]
	for _, t := range at {
		if t.Before(first) {
			first = t
		}
	}
	k := 0
	for _, t := range at {
		if t.Sub(first) < 800*time.Millisecond {
			k++
		}
	}
	srv.Close() // the rest of the queue is refused
	return k
}

// queued tells how many announcements found room while every fetcher was busy.
func queued(p *Proc, fetchers, queue int, r *rand.Rand) (int, bool) {
	time.Sleep(1300 * time.Millisecond)
	srv := peerAt("127.0.0.1", 0)
	defer srv.Close()
	c := newClient("127.0.0.1", 0, r)
	defer c.S.Close()
	busy := map[string]bool{}
	t0 := time.Now()
	ask := func(hash string) bool {
		t := c.Tid()
		return c.Ask(p.Addr, t, announce(t, c.Id, hash, srv.Port(), nil), 2*time.Second) != nil
	}
	for i := 0; i < fetchers; i++ {
		hash := string(h.Bytes(r, 20))
		busy[hash] = true
		srv.Plan(hash, func(c *peersim.Conn) { c.Gone(20 * time.Second) })
		if !ask(hash) {
			return 0, false
		}
	}
	if !h.Wait(500*time.Millisecond, func() bool { m, _ := srv.All(); return len(m) >= fetchers }) {
		return 0, false
	}
	for i := 0; i < queue+2*fetchers+60; i++ {
		if !ask(string(h.Bytes(r, 20))) {
			return 0, false
		}
	}
	if time.Since(t0) > 800*time.Millisecond {
		return 0, false
	}
	n, last := 0, 0
	stable := time.Now()
	h.Wait(20*time.Second, func() bool {
		m, _ := srv.All()
		n = 0
		for hash := range m {
			if !busy[hash] {
				n++
			}
		}
		if n != last {
			last, stable = n, time.Now()
		}
		return time.Since(stable) > 1500*time.Millisecond && n > 0
	})
	return n, true
}

// g01pools compares the goroutines of the program given the same file in the
// default place and on the command line, against a contradicting file.
func g01pools() {
	R := h.R
	count := func(named bool) int {
		for k := 0; k < 10; k++ {
			dir := newDir()
			c := Conf{Port: udpx.FreePort(), Workers: 700, Fetchers: 300}
			d := Conf{Port: udpx.FreePort(), Workers: 3, Fetchers: 2}
			var args []string
			if named {
				os.WriteFile(filepath.Join(dir, "conf", "config.json"), d.json(), 0644)
				os.WriteFile(filepath.Join(dir, "named.json"), c.json(), 0644)
				args = []string{"--config", "named.json"}
			} else {
				os.WriteFile(filepath.Join(dir, "conf", "config.json"), c.json(), 0644)
			}
			p := launch(dir, args...)
			p.Port, p.Addr = c.Port, udpx.Loop(c.Port)
			if !p.ready(20 * time.Second) {
				p.Kill()
				continue
			}
			time.Sleep(200 * time.Millisecond)
			p.Dump()
			return strings.Count(p.Stderr(), "\ngoroutine ")
		}
		return -1
	}
	a, b := count(false), count(true)
	if a < 0 || b < 0 {
		R.Violate("port", "the program did not answer on its configured port", nil)
		return
	}
	R.Count("goroutines_default_place", int64(a))
	R.Count("goroutines_command_line", int64(b))
	R.Eval("pools")
	if d := a - b; d > a/5+20 || -d > a/5+20 {
		R.Violate("pools", fmt.Sprintf("the same settings give %d goroutines from the default place and %d from a file named on the command line", a, b), nil)
	}
}
