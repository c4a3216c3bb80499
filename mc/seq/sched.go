package main

import (
	"fmt"
	"os"
	"slices"
	"syscall"
	"time"

	"verif.local/mc/rep"
	"verif.local/mc/vsched"
)

// larger are the groups whose cases reach sizes at which work may be divided between goroutines.
var larger = []string{"families", "large", "large masks", "shapes and families", "one difference", "structured", "permutations", "programs", "far indices", "long products", "long arrays", "self", "sizes", "default crossover"}

// sched makes the cases run under the schedule explorer, on the instrumented copy of the code
// under test and with the race detector compiled in. Code that starts no goroutine has one
// schedule; if it does start some, what it computes must not depend on how they are scheduled.
func sched(r *rep.R) {
	if os.Getenv("VS_NOCOLD") != "" {
		vsched.NoCold()
	} else if !vsched.TryCold() {
		if self, err := os.Executable(); err == nil {
			err = syscall.Exec(self, os.Args, append(os.Environ(), "VS_NOCOLD=1"))
			fmt.Fprintln(os.Stderr, err)
		}
		os.Exit(3)
	}
	if !vsched.RaceBuild {
		fmt.Fprintln(os.Stderr, "the race detector is not compiled in")
		os.Exit(3)
	}
	vsched.RaceLog = rep.RaceLog()
	r.Only = func(g string) bool { return slices.Contains(larger, g) }
	r.Wrap = func(f func() error) error {
		var msg string
		opt := vsched.Options{Delay: true, Bounds: []int{0, 1}, MaxExec: 200, Time: 20 * time.Second, MaxSteps: 1 << 40, Threads: 4096}
		if r.Prop == "P17" || r.Prop == "P24" {
			// these start goroutines on every tree; conc explores their schedules on small operands
			opt.Bounds = []int{0}
		} else if r.Thorough {
			opt.MaxExec, opt.Time, opt.Bounds = 5000, 2*time.Minute, []int{0, 1, 2}
		}
		p := vsched.Explore(opt, func() {
			msg = ""
			if err := rep.Safely(f); err != nil {
				msg = err.Error()
			}
		}, func() string { return msg })
		r.Schedule(p.Schedules, p.Complete)
		if p.Failure != "" {
			return rep.Errf("%s", p.Failure)
		}
		if !p.Complete {
			r.Bounded(fmt.Sprintf("at most %d deviations from the default schedule %s", p.Bound, p.Note), true)
		}
		return nil
	}
}
