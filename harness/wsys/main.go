// Worker for the properties of the whole program: the real crawler binary,
// built from /repo, among simulated DHT nodes and peers on loopback.
package main

import (
	"os"

	"verifharness/h"
)

func main() {
	h.Init()
	switch h.Prop {
	case "D05":
		d05()
	case "D07":
		d07()
	case "D08":
		d08()
	case "D09":
		d09()
	case "D10":
		d10()
	case "F01":
		f01()
	case "X01":
		x01()
	case "G01":
		g01()
	case "S01":
		s01()
	case "L01":
		l01()
	case "A01":
		a01()
	case "R01":
		r01()
	default:
		h.Fatal("unknown property %q", h.Prop)
	}
	h.R.Finish()
	os.Exit(0)
}
