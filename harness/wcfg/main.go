// wcfg prints the settings the program would use, as its accessors give them.
package main

import (
	"encoding/json"
	"os"

	"github.com/GalaIO/P2Pcrawler/config"
)

func main() {
	b, err := json.Marshal(map[string]interface{}{
		"dht":          config.DhtConfig(),
		"fetchTorrent": config.FetchTorrentConfig(),
		"pprof":        config.PProfConfig(),
		"logger":       config.LoggerConfig(),
	})
	if err != nil {
		panic(err)
	}
	// through a file: whatever the program logs does not mix with it
	if err := os.WriteFile(os.Args[1], b, 0644); err != nil {
		panic(err)
	}
}
