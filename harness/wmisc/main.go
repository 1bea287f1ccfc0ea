// Worker for the properties of package misc: codec, accessors, registry,
// buffer pool, worker pool, shutdown, logging.
package main

import (
	"os"

	"github.com/GalaIO/P2Pcrawler/misc"

	"verifharness/h"
)

func main() {
	h.Init()
	_ = misc.TRACE
	switch h.Prop {
	case "C01":
		c01()
	case "C02":
		c02()
	case "C03":
		c03()
	case "C04":
		c04()
	case "M01":
		m01()
	case "M02":
		m02()
	case "M03":
		m03()
	case "M04":
		m04()
	case "M05":
		m05()
	case "M06":
		m06()
	case "M07":
		m07()
	case "R01":
		r01()
	default:
		h.Fatal("unknown property %q", h.Prop)
	}
	h.R.Finish()
	os.Exit(0)
}
