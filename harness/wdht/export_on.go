//go:build verifexport

package main

import "github.com/GalaIO/P2Pcrawler/dht"

// The reading side of contact lists is not exported by the package; the driver
// adds an accessor with an overlay (harness/export/dht.go.txt), or leaves this file
// out when that does not build.
func init() { parseList = dht.VerifParseNodeInfo }
