//go:build few

package main

// one element type, for the schedule explorer
var types = []tcase{
	tc[float64]{"float64", true},
}
