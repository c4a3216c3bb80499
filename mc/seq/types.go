//go:build !few

package main

var types = []tcase{
	tc[float64]{"float64", true},
	tc[int8]{"int8", true},
	tc[int]{"int", false},
	tc[int16]{"int16", false},
	tc[int32]{"int32", false},
	tc[int64]{"int64", false},
	tc[uint]{"uint", false},
	tc[uint8]{"uint8", true},
	tc[uint16]{"uint16", false},
	tc[uint32]{"uint32", false},
	tc[uint64]{"uint64", false},
	tc[uintptr]{"uintptr", false},
	tc[float32]{"float32", false},
}
