// Command conc explores every schedule of small concurrent programs on the instrumented copy
// of the code under test, with the race detector compiled in.
package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/mc/rep"
	"verif.local/mc/vsched"
	"verif.local/mc/vsync"
)

func main() {
	log.SetOutput(io.Discard)
	// code whose initialisation cannot be repeated is explored in whatever state it has reached
	if os.Getenv("VS_NOCOLD") != "" {
		vsched.NoCold()
	} else if !vsched.TryCold() {
		self, err := os.Executable()
		if err == nil {
			err = syscall.Exec(self, os.Args, append(os.Environ(), "VS_NOCOLD=1"))
		}
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r := rep.Start()
	vsched.RaceLog = rep.RaceLog()
	props := map[string]func(*rep.R){
		"P17": p17, "P19": p19, "P20": p20, "P21": p21, "P22": p22, "P23": p23, "P24": p24,
	}
	f, ok := props[r.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(3)
	}
	if err := selftest(); err != nil {
		fmt.Fprintln(os.Stderr, "the explorer's self-test failed:", err)
		os.Exit(3)
	}
	f(r)
	r.Finish()
}

// program is one concurrent program: threads are run concurrently after setup.
type program struct {
	body  func()        // the first goroutine; it starts the others with vsched.Go
	check func() string // after each complete execution
	opt   vsched.Options
}

// explore runs a program under every schedule (within its bounds) as one case.
func explore(r *rep.R, desc string, mk func() program) {
	r.Case(func() string { return desc }, func() error {
		p := mk()
		p.opt.Seen = rep.Seen
		if p.opt.Time == 0 {
			p.opt.Time = 40 * time.Second
			if r.Thorough {
				p.opt.Time = 10 * time.Minute
			}
		}
		if p.opt.MaxExec == 0 && !r.Thorough {
			p.opt.MaxExec = 60000
		} else if p.opt.MaxExec == 0 {
			p.opt.MaxExec = 5_000_000
		}
		rp := vsched.Explore(p.opt, p.body, p.check)
		r.Step(rp.Steps)
		r.Schedule(rp.Schedules, rp.Complete)
		if rp.Failure != "" {
			return rep.Errf("%s", rp.Failure)
		}
		if !rp.Complete {
			w := "none completely"
			if rp.Bound >= 0 {
				w = fmt.Sprintf("every schedule with at most %d preemptions", rp.Bound)
				if p.opt.Delay {
					w = fmt.Sprintf("every schedule with at most %d deviations from the default", rp.Bound)
				}
			}
			if rp.Note != "" {
				w += " (" + rp.Note + ")"
			}
			last := -1
			if n := len(p.opt.Bounds); n > 0 {
				last = p.opt.Bounds[n-1]
			}
			r.Bounded(w, rp.Bound == last)
		}
		return nil
	})
}

// join starts the functions concurrently and waits for all of them.
func join(fs ...func()) {
	var wg vsync.WaitGroup
	wg.Add(len(fs))
	for _, f := range fs {
		vsched.Go(func() {
			defer wg.Done()
			f()
		})
	}
	wg.Wait()
}

// caught runs f and returns what it panicked with ("" for no panic).
func caught(f func()) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = "panic"
		}
	}()
	f()
	return
}

// selftest explores programs whose outcomes are known, so that a broken explorer is noticed.
func selftest() error {
	opt := vsched.Options{Time: 30 * time.Second}
	// every outcome of two unsynchronised-order increments through a lock
	seen := map[string]bool{}
	var m vsync.Mutex
	var x int
	var log []string
	rp := vsched.Explore(opt, func() {
		x, log = 0, nil
		step := func(n string) func() {
			return func() {
				m.Lock()
				y := x
				m.Unlock()
				m.Lock()
				x = y + 1
				log = append(log, n)
				m.Unlock()
			}
		}
		join(step("a"), step("b"))
	}, func() string { seen[fmt.Sprint(x, log)] = true; return "" })
	var got []string
	for k := range seen {
		got = append(got, k)
	}
	sort.Strings(got)
	if !rp.Complete || fmt.Sprint(got) != "[1 [a b] 1 [b a] 2 [a b] 2 [b a]]" {
		return fmt.Errorf("lost update: %v %+v", got, rp)
	}
	// a lock order inversion
	rp = vsched.Explore(opt, func() {
		var a, b vsync.RWMutex
		join(func() { a.Lock(); b.RLock(); b.RUnlock(); a.Unlock() }, func() { b.Lock(); a.RLock(); a.RUnlock(); b.Unlock() })
	}, nil)
	if !strings.HasPrefix(rp.Failure, "deadlock") {
		return fmt.Errorf("deadlock not found: %+v", rp)
	}
	// a recursive read lock with a writer in between
	rp = vsched.Explore(opt, func() {
		var a vsync.RWMutex
		join(func() { a.RLock(); a.RLock(); a.RUnlock(); a.RUnlock() }, func() { a.Lock(); a.Unlock() })
	}, nil)
	if !strings.HasPrefix(rp.Failure, "deadlock") {
		return fmt.Errorf("recursive read lock not found: %+v", rp)
	}
	// order of messages
	seen = map[string]bool{}
	var order []int
	rp = vsched.Explore(opt, func() {
		order = nil
		c := make(chan int)
		for i := 0; i < 3; i++ {
			vsched.Go(func() { vsched.SendTo(c)(i) })
		}
		for i := 0; i < 3; i++ {
			order = append(order, vsched.Recv(c))
		}
	}, func() string { seen[fmt.Sprint(order)] = true; return "" })
	if !rp.Complete || len(seen) != 6 {
		return fmt.Errorf("message orders: %v %+v", seen, rp)
	}
	// a goroutine left behind
	rp = vsched.Explore(opt, func() {
		c := make(chan int)
		vsched.Go(func() { vsched.SendTo(c)(1) })
	}, nil)
	if !strings.HasPrefix(rp.Failure, "goroutines left behind") {
		return fmt.Errorf("leak not found: %+v", rp)
	}
	if !vsched.RaceBuild {
		return fmt.Errorf("the race detector is not compiled in")
	}
	// a race on one schedule only
	rp = vsched.Explore(opt, func() {
		var a vsync.Mutex
		y := new(int)
		ready := new(bool)
		join(func() { *y = 1; a.Lock(); *ready = true; a.Unlock() }, func() {
			a.Lock()
			ok := *ready
			a.Unlock()
			if !ok {
				*y = 2
			}
		})
	}, nil)
	if !strings.HasPrefix(rp.Failure, "data race") {
		return fmt.Errorf("race not found: %+v", rp)
	}
	// the same accesses ordered by a channel, a lock or the end of a goroutine do not race
	rp = vsched.Explore(opt, func() {
		y := new(int)
		c, d := make(chan int), make(chan int, 1)
		var a vsync.RWMutex
		vsched.Go(func() { *y = 1; vsched.SendTo(c)(1) })
		vsched.Recv(c)
		*y = 2
		vsched.Go(func() { *y = 3; vsched.SendTo(d)(1) })
		vsched.Recv(d)
		*y = 4
		join(func() { a.Lock(); *y = 5; a.Unlock() }, func() { a.RLock(); _ = *y; a.RUnlock() }, func() { a.RLock(); _ = *y; a.RUnlock() })
		*y = 6
		vsched.Go(func() { *y = 7; vsched.Close(c) })
		vsched.Recv2(c)
		*y = 8
	}, nil)
	if !rp.Complete || rp.Failure != "" {
		return fmt.Errorf("ordered accesses: %+v", rp)
	}
	return nil
}
