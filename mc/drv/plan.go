package main

import (
	"fmt"
	"slices"
)

// plan lists the explorers that decide each property.
var plan = map[string][]string{}

func init() {
	for i := 1; i <= 33; i++ {
		plan[fmt.Sprintf("P%02d", i)] = []string{"seq"}
	}
	for i := 1; i <= 18; i++ {
		p := fmt.Sprintf("P%02d", i)
		plan[p] = []string{"seq", "far", "sched"}
	}
	for i := 25; i <= 31; i++ {
		p := fmt.Sprintf("P%02d", i)
		plan[p] = []string{"seq", "sched"}
	}
	for _, p := range []string{"P19", "P21"} {
		plan[p] = []string{"conc"}
	}
	plan["P17"] = []string{"seq", "far", "sched", "conc"}
	for _, p := range []string{"P20", "P22", "P23"} {
		plan[p] = []string{"seq", "conc"}
	}
	plan["P24"] = []string{"seq", "sched", "conc"}
	plan["P30"] = []string{"seq"}
	for _, p := range []string{"P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P20", "P22", "P24", "P25", "P26", "P27", "P28", "P29", "P31"} {
		plan[p] = slices.Insert(plan[p], 1, "own")
	}
}

func assumptions(p string) []string {
	return []string{
		"bounded: nothing is claimed beyond the enumerated shapes, values, histories and schedules listed under groups",
		"the reference model (mc/model) is a plain array with textbook loops",
		"amd64, the installed Go toolchain",
	}
}
