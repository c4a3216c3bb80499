// Package rep enumerates cases deterministically, shards them over processes,
// runs them, and records what was covered and what failed.
package rep

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Violation is one failing case; Desc identifies it and suffices to replay it.
type Violation struct {
	Group      string `json:"group"`
	CaseNo     int64  `json:"case_no"`
	Desc       string `json:"case"`
	Err        string `json:"failure"`
	Reproduced int    `json:"reproduced_of_5"`
	Known      string `json:"known,omitempty"`
}

// GroupCov is the coverage of one named group of cases.
type GroupCov struct {
	Cases       int64            `json:"cases"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Schedules   int64            `json:"schedules,omitempty"`
	Complete    int64            `json:"programs_with_every_schedule_covered,omitempty"`
	Bound       string           `json:"bound,omitempty"`
	Bounded     map[string]int64 `json:"other_programs_by_schedules_covered,omitempty"`
}

// Result is what one process writes.
type Result struct {
	Property   string               `json:"property"`
	Groups     map[string]*GroupCov `json:"groups"`
	Samples    []string             `json:"samples"`
	Violations []Violation          `json:"violations"`
	Known      []Violation          `json:"known"`
	Exhaustive bool                 `json:"exhaustive"`
	Notes      []string             `json:"notes,omitempty"`
}

// R is a run of one property's exploration in one shard.
type R struct {
	Prop     string
	Thorough bool
	Shard, N int64
	replay   string
	out      string
	known    []knownEntry

	caseNo     int64
	group      string
	cov        *GroupCov
	Far        bool
	Sched      bool                             // the cases run under the schedule explorer
	OwnFormats bool                             // formats of the caller's own stand for the library's
	Prefix     string                           // of the names of groups
	Wrap       func(f func() error) (err error) // how a case is run (nil: it is called)
	Only       func(group string) bool          // which groups are run (nil: all)
	res        Result
	sampled    map[string]int
	deadline   time.Time
	capped     bool

	trace    *os.File
	curStart atomic.Int64
	curDesc  atomic.Pointer[func() string]
	maxViol  int
}

type knownEntry struct {
	Property string `json:"property"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

// Start parses the command line common to the explorers.
func Start() *R {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	shard := flag.Int64("shard", 0, "shard index")
	n := flag.Int64("n", 1, "number of shards")
	out := flag.String("out", "", "result file")
	replay := flag.String("replay", "", "run only the case with this description")
	budget := flag.Float64("budget", 0, "soft budget in seconds (0: none); what is left out is reported")
	trace := flag.String("trace", "", "write the case being run to this file")
	far := flag.Bool("far", false, "run the cases on far objects only; one that takes too long is left out")
	sched := flag.Bool("sched", false, "run the cases of larger sizes under the schedule explorer")
	own := flag.Bool("own", false, "use formats of the caller's own")
	known := flag.String("known", "", "known findings file")
	flag.Parse()
	r := &R{Prop: *prop, Thorough: *tier == "thorough", Shard: *shard, N: *n, replay: *replay, out: *out, Far: *far, Sched: *sched, OwnFormats: *own, sampled: map[string]int{}, maxViol: 1}
	r.res = Result{Property: *prop, Groups: map[string]*GroupCov{}, Exhaustive: true}
	if *trace != "" {
		r.trace, _ = os.Create(*trace)
	}
	if *budget > 0 {
		r.deadline = time.Now().Add(time.Duration(*budget * float64(time.Second)))
	}
	if *known != "" {
		if b, err := os.ReadFile(*known); err == nil {
			var k struct {
				Findings []knownEntry `json:"findings"`
			}
			if err := json.Unmarshal(b, &k); err != nil {
				fmt.Fprintln(os.Stderr, "known findings:", err)
				os.Exit(3)
			}
			for _, e := range k.Findings {
				if e.Property == r.Prop && e.Status == "known" {
					r.known = append(r.known, e)
				}
			}
		}
	}
	r.Group("all", "")
	go r.watchdog()
	return r
}

const hang = 150 * time.Second

// watchdog turns a call that never returns into a violation. A case takes microseconds to
// milliseconds; the limit is five orders of magnitude above that.
func (r *R) watchdog() {
	for {
		time.Sleep(time.Second)
		st := r.curStart.Load()
		if st != 0 && time.Since(time.Unix(0, st)) > hang {
			d := "?"
			if f := r.curDesc.Load(); f != nil {
				d = (*f)()
			}
			if r.Far || r.Sched {
				r.Note("a case on a far object or under the schedule explorer took too long and the rest of its shard was left out: "+d, true)
				r.flush()
				os.Exit(0)
			}
			r.res.Violations = append(r.res.Violations, Violation{Group: r.group, CaseNo: r.caseNo, Desc: d, Err: fmt.Sprintf("the call did not return within %v", hang), Reproduced: 1})
			r.flush()
			os.Exit(1)
		}
	}
}

const maxSeen = 6 << 20

var (
	seen = map[uint64]struct{}{}
)

// Seen records the hash of a state; distinct ones are counted over all shards.
func Seen(h uint64) {
	if len(seen) < maxSeen {
		seen[h] = struct{}{}
	}
}

// Group names the following cases.
func (r *R) Group(name, bound string) {
	name = r.Prefix + name
	r.group = name
	c := r.res.Groups[name]
	if c == nil {
		c = &GroupCov{}
		r.res.Groups[name] = c
	}
	if bound != "" {
		c.Bound = bound
	}
	r.cov = c
}

// Mine says whether the next unit belongs to this shard (for units larger than a case).
func (r *R) Mine() bool {
	r.caseNo++
	return r.replay != "" || r.caseNo%r.N == r.Shard
}

// Step counts transitions (operations of the real code whose outcome was compared).
func (r *R) Step(n int64) { r.cov.Transitions += n }

// State counts states (distinct inputs or reached object states).
func (r *R) State(n int64) { r.cov.States += n }

// Schedule counts complete executions of a program and whether they are all there are.
func (r *R) Schedule(n int64, all bool) {
	r.cov.Schedules += n
	if all {
		r.cov.Complete++
	}
}

// Bounded counts a program not every schedule of which was covered, by what was.
// Within says that the bound asked for was reached.
func (r *R) Bounded(what string, within bool) {
	if r.cov.Bounded == nil {
		r.cov.Bounded = map[string]int64{}
	}
	r.cov.Bounded[what]++
	if !within {
		r.res.Exhaustive = false
	}
}

// Expired reports whether the soft budget is used up; the run is then not exhaustive.
func (r *R) Expired() bool {
	if !r.deadline.IsZero() && time.Now().After(r.deadline) {
		if !r.capped {
			r.capped = true
			r.res.Exhaustive = false
			r.res.Notes = append(r.res.Notes, "soft time budget reached in group "+r.group+"; later cases of this shard were skipped")
		}
		return true
	}
	return false
}

// Note records a remark for the evidence and, if inexhaustive, clears the exhaustive flag.
func (r *R) Note(s string, inexhaustive bool) {
	r.res.Notes = append(r.res.Notes, s)
	if inexhaustive {
		r.res.Exhaustive = false
	}
}

var tick int64

// Case is one case of the enumeration.
func (r *R) Case(desc func() string, f func() error) {
	if r.Only != nil && !r.Only(r.group) {
		return
	}
	r.caseNo++
	if r.replay == "" && r.caseNo%r.N != r.Shard {
		return
	}
	r.run(desc, f)
}

// Own runs a case unconditionally (the caller has sharded already).
func (r *R) Own(desc func() string, f func() error) { r.caseNo++; r.run(desc, f) }

// CaseID tells the cases of this process apart.
func CaseID() uint64 { return caseID }

var caseID uint64

func (r *R) run(desc func() string, f func() error) {
	if r.replay != "" && desc() != r.replay || r.Only != nil && !r.Only(r.group) {
		return
	}
	if r.Wrap != nil {
		g := f
		f = func() error { return r.Wrap(g) }
	}
	tick++
	caseID++
	if (tick&1023 == 0 || r.Wrap != nil) && r.Expired() || r.capped {
		r.Expired()
		return
	}
	if r.sampled[r.group] < 2 && (tick > 3 || r.sampled[r.group] == 0) {
		r.sampled[r.group]++
		if len(r.res.Samples) < 60 {
			r.res.Samples = append(r.res.Samples, r.group+": "+desc())
		}
	}
	if r.trace != nil {
		b := []byte(r.group + ": " + desc() + "\n")
		r.trace.WriteAt(b, 0)
		r.trace.Truncate(int64(len(b)))
	}
	r.curDesc.Store(&desc)
	r.curStart.Store(time.Now().UnixNano())
	err := Safely(f)
	r.curStart.Store(0)
	r.cov.Cases++
	if err == nil {
		return
	}
	d := desc()
	rep := 0
	for i := 0; i < 5; i++ {
		r.curStart.Store(time.Now().UnixNano())
		if e := Safely(f); e != nil {
			rep++
		}
		r.curStart.Store(0)
	}
	v := Violation{Group: r.group, CaseNo: r.caseNo, Desc: d, Err: err.Error(), Reproduced: rep}
	full := r.group + ": " + d
	for _, k := range r.known {
		if strings.HasPrefix(full, k.Match) {
			v.Known = k.What
			for _, o := range r.res.Known {
				if o.Known == v.Known {
					return
				}
			}
			r.res.Known = append(r.res.Known, v)
			return
		}
	}
	r.res.Violations = append(r.res.Violations, v)
	if len(r.res.Violations) >= r.maxViol {
		r.Finish()
	}
}

// Safely runs f and turns a panic into an error.
func Safely(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v [%s]", p, frames())
		}
	}()
	return f()
}

func frames() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/rep/") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/log/") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func (r *R) flush() {
	if r.out != "" && len(seen) > 0 {
		b := make([]byte, 0, 8*len(seen))
		for h := range seen {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		if err := os.WriteFile(r.out+".states", b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	sort.Strings(r.res.Notes)
	b, _ := json.Marshal(r.res)
	if r.out == "" {
		b, _ = json.MarshalIndent(r.res, "", " ")
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(r.out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// Finish writes the result and exits.
func (r *R) Finish() {
	if c := r.res.Groups["all"]; c != nil && c.Cases == 0 && c.States == 0 && c.Transitions == 0 {
		delete(r.res.Groups, "all")
	}
	r.flush()
	if len(r.res.Violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// Errf is fmt.Errorf.
func Errf(f string, a ...any) error { return fmt.Errorf(f, a...) }
