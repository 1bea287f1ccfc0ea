package main

import (
	"fmt"
	"strings"
	"time"
)

// Step is one process of a check.
type Step struct {
	Worker       string
	Scenario     string
	Race         bool // build the worker with the race detector
	RaceViolates bool // a data race involving the code under test breaks the property
	Crawler      bool // the worker drives the real program
	CrawlerRace  bool
	Cfg          bool
	ThoroughOnly bool
	Timeout      time.Duration // quick tier
	Conf         string        // ./conf/config.json of the worker
	Env          []string
}

func (s Step) name() string {
	n := s.Worker
	if s.Scenario != "" {
		n += "/" + s.Scenario
	}
	if s.Race || s.CrawlerRace {
		n += "/race"
	}
	return n
}

const defaultConf = `{"dht":{"Port":0,"WorkPoolSize":64,"BootstrapNodes":[]},"fetchTorrent":{"InfoHashQueueSize":1000,"WorkPoolSize":20},"pprof":{"NeedRun":false},"logger":{"Level":"Error"}}`

var infoConf = strings.Replace(defaultConf, `"Level":"Error"`, `"Level":"Info"`, 1)

// workers is a configuration with that many concurrent handlers
func workers(n int) string {
	return strings.Replace(defaultConf, `"WorkPoolSize":64`, fmt.Sprintf(`"WorkPoolSize":%d`, n), 1)
}

// a second run under the race detector: other timings, and its reports count as
// evidence (as violations where the property speaks of memory accesses)
func both(w string, violates bool) []Step {
	return []Step{
		{Worker: w},
		{Worker: w, Race: true, RaceViolates: violates},
	}
}

func plain(w string) []Step { return []Step{{Worker: w}} }

var sys = []Step{{Worker: "wsys", Crawler: true, Timeout: 320 * time.Second}}

var plans = map[string][]Step{
	"C01": plain("wmisc"),
	"C02": plain("wmisc"),
	"C03": plain("wmisc"),
	"C04": plain("wmisc"),
	"M01": both("wmisc", true),
	"M02": both("wmisc", false),
	"M03": both("wmisc", false),
	"M04": both("wmisc", false),
	"M05": both("wmisc", false),
	"M06": both("wmisc", false),
	"M07": both("wmisc", false),
	"K01": append(both("wkrpc", false),
		Step{Worker: "wkrpc", Scenario: "held", Conf: workers(2000)},
		Step{Worker: "wkrpc", Scenario: "one", Conf: workers(1)},
		Step{Worker: "wkrpc", Scenario: "three", Conf: workers(3)}),
	"K02": both("wkrpc", false),
	"K03": both("wkrpc", false),
	"K04": both("wkrpc", false),
	"K05": both("wkrpc", false),
	"K06": both("wkrpc", false),
	"K07": both("wkrpc", false),
	"K08": both("wkrpc", false),
	"D01": plain("wdht"),
	"D02": plain("wdht"),
	"D03": both("wdht", true),
	"D04": plain("wdht"),
	"D05": {{Worker: "wdht"}, {Worker: "wsys", Crawler: true}},
	"D06": both("wdht", false),
	"P01": plain("wpeer"),
	"P02": plain("wpeer"),
	"P03": plain("wpeer"),
	"P04": both("wpeer", true),
	"P05": plain("wpeer"),
	"R01": {
		{Worker: "wmisc", Race: true, RaceViolates: true, Conf: infoConf},
		{Worker: "wkrpc", Race: true, RaceViolates: true, Conf: infoConf},
		{Worker: "wdht", Race: true, RaceViolates: true, Conf: infoConf},
		{Worker: "wpeer", Race: true, RaceViolates: true, Conf: infoConf},
		{Worker: "wsys", Crawler: true, CrawlerRace: true, RaceViolates: true},
	},
	"D07": sys,
	"D08": sys,
	"D09": sys,
	"D10": sys,
	"F01": sys,
	"X01": sys,
	"G01": {{Worker: "wsys", Crawler: true, Cfg: true, Timeout: 320 * time.Second}},
	"S01": {{Worker: "wsys", Crawler: true, Timeout: 320 * time.Second}},
	"L01": sys,
	"A01": {{Worker: "wsys", Crawler: true, Timeout: 420 * time.Second}},
}
