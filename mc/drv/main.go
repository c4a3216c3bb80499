// Command drv builds the explorers from the code under test as it is now, runs them in shards,
// merges what they covered, writes the evidence file and prints the verdict.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const (
	shards   = 8
	memoryKB = 3_400_000
)

type violation struct {
	Engine     string `json:"engine"`
	Group      string `json:"group"`
	Desc       string `json:"case"`
	Err        string `json:"failure"`
	Reproduced int    `json:"reproduced_of_5"`
	Known      string `json:"known,omitempty"`
}

type group struct {
	Cases       int64            `json:"cases"`
	States      int64            `json:"states,omitempty"`
	Transitions int64            `json:"transitions"`
	Schedules   int64            `json:"schedules,omitempty"`
	Complete    int64            `json:"programs_with_every_schedule_covered,omitempty"`
	Bound       string           `json:"bound,omitempty"`
	Bounded     map[string]int64 `json:"other_programs_by_schedules_covered,omitempty"`
}

type result struct {
	Property   string            `json:"property"`
	Groups     map[string]*group `json:"groups"`
	Samples    []string          `json:"samples"`
	Violations []violation       `json:"violations"`
	Known      []violation       `json:"known"`
	Exhaustive bool              `json:"exhaustive"`
	Notes      []string          `json:"notes"`
}

func main() {
	if len(os.Args) < 2 {
		die("usage: check PROPERTY [--replay FILE]")
	}
	prop := os.Args[1]
	d := &driver{prop: prop, verif: env("VERIF_DIR", "/verif"), repo: env("REPO_DIR", "/repo"), tier: env("VERIF_TIER", "quick"), start: time.Now()}
	if d.tier != "thorough" {
		d.tier = "quick"
	}
	var replay *violation
	for i := 2; i < len(os.Args); i++ {
		if os.Args[i] == "--replay" && i+1 < len(os.Args) {
			b, err := os.ReadFile(os.Args[i+1])
			if err != nil {
				die(err.Error())
			}
			replay = &violation{}
			if err := json.Unmarshal(b, replay); err != nil {
				die(err.Error())
			}
			i++
		}
	}
	code := d.main(replay)
	os.RemoveAll(d.tmp)
	os.Exit(code)
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func die(s string) { fmt.Fprintln(os.Stderr, s); os.Exit(2) }

type driver struct {
	prop, verif, repo, tier, tmp string
	start                        time.Time
	total                        result
	hashes                       []uint64
	copyErr                      error // why there is no instrumented copy
}

func (d *driver) main(replay *violation) int {
	engines, ok := plan[d.prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", d.prop)
		return 2
	}
	tmp, err := os.MkdirTemp("", "vmc-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	d.tmp = tmp
	d.total = result{Property: d.prop, Groups: map[string]*group{}, Exhaustive: true}
	if replay != nil {
		engines = slices.DeleteFunc(slices.Clone(engines), func(e string) bool { return replay.Engine != e })
	}
	if slices.ContainsFunc(engines, instrumented) {
		d.copyErr = d.instrument()
	}
	type built struct {
		bin string
		err error
	}
	bins := map[string]chan built{}
	for _, e := range engines {
		c := make(chan built, 1)
		bins[e] = c
		if sameBinary(e) {
			continue
		}
		go func() {
			bin, err := d.build(e)
			c <- built{bin, err}
		}()
	}
	for _, e := range engines {
		var bin string
		var err error
		if sameBinary(e) {
			bin, err = d.build(e)
		} else {
			b := <-bins[e]
			bin, err = b.bin, b.err
		}
		if err != nil {
			if instrumented(e) {
				if _, perr := d.build("seq"); perr == nil {
					// the code under test compiles but the instrumented copy does not: nothing can be said about schedules
					d.total.Exhaustive = false
					d.total.Notes = append(d.total.Notes, "the instrumented copy did not build; schedules were not explored: "+firstLine(err.Error()))
					fmt.Fprintln(os.Stderr, "note: instrumented copy did not build:", err)
					continue
				}
			}
			fmt.Fprintln(os.Stderr, "build failed:", err)
			return 2
		}
		if replay != nil {
			return d.replay(bin, e, replay)
		}
		if !d.run(bin, e) {
			return 2
		}
	}
	return d.report()
}

// sameBinary says whether an explorer is the sequential one with a flag.
func sameBinary(engine string) bool { return engine == "far" || engine == "own" }

// instrumented says whether an explorer is linked with the instrumented copy of the code under test.
func instrumented(engine string) bool { return engine == "conc" || engine == "sched" }

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func (d *driver) goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GONOSUMDB=*", "CGO_ENABLED=1")
}

// modfile writes a private go.mod pointing at the given copy of the code under test.
func (d *driver) modfile(name, code string) (string, error) {
	p := filepath.Join(d.tmp, name+".mod")
	b, err := os.ReadFile(filepath.Join(d.verif, "mc", "go.mod"))
	if err != nil {
		return "", err
	}
	s := string(b)
	i := strings.Index(s, "replace github.com/rossmerr/graphblas =>")
	if i < 0 {
		return "", fmt.Errorf("go.mod has no replace directive")
	}
	s = s[:i] + "replace github.com/rossmerr/graphblas => " + code + "\n"
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		return "", err
	}
	sum, _ := os.ReadFile(filepath.Join(d.verif, "mc", "go.sum"))
	sum2, _ := os.ReadFile(filepath.Join(d.repo, "go.sum"))
	return p, os.WriteFile(filepath.Join(d.tmp, name+".sum"), append(append(sum, '\n'), sum2...), 0o644)
}

func (d *driver) gorun(dir string, args ...string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = d.goEnv()
	out, err := c.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return string(out), err
}

func (d *driver) build(engine string) (string, error) {
	if sameBinary(engine) {
		engine = "seq"
	}
	bin := filepath.Join(d.tmp, engine)
	if _, err := os.Stat(bin); err == nil {
		return bin, nil
	}
	mc := filepath.Join(d.verif, "mc")
	code := d.repo
	pkg := "./" + engine
	if engine == "sched" {
		pkg = "./seq"
	}
	if instrumented(engine) {
		if d.copyErr != nil {
			return "", d.copyErr
		}
		code = filepath.Join(d.tmp, "instrumented")
	}
	mod, err := d.modfile(engine, code)
	if err != nil {
		return "", err
	}
	args := []string{"build", "-modfile=" + mod, "-o", bin}
	if instrumented(engine) {
		args = append(args, "-race", "-tags", "few")
	}
	_, err = d.gorun(mc, append(args, pkg)...)
	return bin, err
}

// instrument makes the instrumented copy of the code under test.
func (d *driver) instrument() error {
	mc := filepath.Join(d.verif, "mc")
	inst := filepath.Join(d.tmp, "inst")
	mod, err := d.modfile("inst", d.repo)
	if err != nil {
		return err
	}
	if _, err := d.gorun(mc, "build", "-modfile="+mod, "-o", inst, "./inst"); err != nil {
		return err
	}
	c := exec.Command(inst, "-src", d.repo, "-dst", filepath.Join(d.tmp, "instrumented"))
	c.Env = d.goEnv()
	if out, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("instrumenting: %v\n%s", err, out)
	}
	return nil
}

func (d *driver) command(bin string, args ...string) *exec.Cmd {
	if instrumented(filepath.Base(bin)) {
		// the race detector reserves address space far beyond any limit
		c := exec.Command(bin, args...)
		c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=200", "GOTRACEBACK=single", "GOMEMLIMIT=2500MiB",
			"GORACE=log_path="+filepath.Join(d.tmp, "race")+" exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 atexit_sleep_ms=0")
		return c
	}
	c := exec.Command("/bin/bash", append([]string{"-c", "ulimit -v " + strconv.Itoa(memoryKB) + "; exec \"$@\"", "run", bin}, args...)...)
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GOTRACEBACK=single")
	return c
}

func (d *driver) args(engine string, extra ...string) []string {
	if engine == "far" || engine == "sched" || engine == "own" {
		extra = append(extra, "-"+engine)
	}
	return append([]string{"-prop", d.prop, "-tier", d.tier, "-known", filepath.Join(d.verif, "known_findings.json")}, extra...)
}

func (d *driver) replay(bin, engine string, v *violation) int {
	c := d.command(bin, d.args(engine, "-replay", v.Desc)...)
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	if err := c.Run(); err != nil {
		fmt.Printf("reproduced: %v\n", err)
		return 1
	}
	return 0
}

// run runs one explorer in shards; false means it could not give an answer.
func (d *driver) run(bin, engine string) bool {
	// an explorer stops at its limit with what it has covered; the quick tier has 15 minutes for all of them
	limit, grace := 420*time.Second, 240*time.Second
	if d.tier == "thorough" {
		limit = 3 * time.Hour
	} else {
		later := len(plan[d.prop]) - 1 - slices.Index(plan[d.prop], engine)
		limit = max(15*time.Second, min(limit, 760*time.Second-time.Since(d.start)-time.Duration(later)*40*time.Second))
		if engine == "sched" {
			limit = min(limit, 200*time.Second)
		}
		grace = max(20*time.Second, min(grace, 850*time.Second-time.Since(d.start)-limit))
	}
	type outcome struct {
		res   *result
		crash string
		bad   bool
	}
	outs := make([]outcome, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(d.tmp, fmt.Sprintf("%s.%d.json", engine, i))
			base := d.args(engine, "-shard", strconv.Itoa(i), "-n", strconv.Itoa(shards), "-out", out, "-budget", fmt.Sprint(limit.Seconds()))
			text, rc := d.child(bin, base, limit+grace)
			if r := load(out); r != nil && (rc == 0 || rc == 1) {
				outs[i] = outcome{res: r}
				return
			}
			if rc == 3 {
				fmt.Fprintf(os.Stderr, "%s shard %d: exit %d\n%s\n", engine, i, rc, tail(text, 2000))
				outs[i] = outcome{bad: true}
				return
			}
			if (engine == "far" || engine == "sched") && (rc == -1 || strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate memory")) {
				// nothing promises that the cost of an operation is independent of the dimensions
				outs[i] = outcome{res: &result{Notes: []string{"a case of " + engine + " exhausted memory or time; its shard was left out"}}}
				return
			}
			// the code under test took the process down (a panic in one of its goroutines, exhausted memory or stack):
			// find the case by running the shard again with a trace
			tr := filepath.Join(d.tmp, fmt.Sprintf("%s.%d.trace", engine, i))
			text2, rc2 := d.child(bin, append(base, "-trace", tr), limit+grace)
			if r := load(out); r != nil && (rc2 == 0 || rc2 == 1) && len(r.Violations) > 0 {
				outs[i] = outcome{res: r}
				return
			}
			b, _ := os.ReadFile(tr)
			if rc2 != 0 && rc2 != 1 {
				text = text2
			}
			outs[i] = outcome{crash: fmt.Sprintf("%s\x00the process died (exit %d): %s", strings.TrimSpace(string(b)), rc, crashText(text))}
		}()
	}
	wg.Wait()
	for i, o := range outs {
		if o.bad {
			return false
		}
		if o.crash != "" {
			desc, msg, _ := strings.Cut(o.crash, "\x00")
			g, c, ok := strings.Cut(desc, ": ")
			if !ok {
				g, c = "?", desc
			}
			d.total.Violations = append(d.total.Violations, violation{Engine: engine, Group: g, Desc: c, Err: msg})
			continue
		}
		d.merge(engine, i, o.res)
	}
	return true
}

func crashText(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, ".go:") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) == 5 {
			break
		}
	}
	if len(keep) == 0 {
		return tail(s, 300)
	}
	return strings.Join(keep, " | ")
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (d *driver) child(bin string, args []string, limit time.Duration) (string, int) {
	c := d.command(bin, args...)
	var b strings.Builder
	w := &capped{b: &b}
	c.Stdout, c.Stderr = w, w
	if err := c.Start(); err != nil {
		return err.Error(), 3
	}
	t := time.AfterFunc(limit, func() { c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	if err == nil {
		return b.String(), 0
	}
	if x, ok := err.(*exec.ExitError); ok {
		return b.String(), x.ExitCode()
	}
	return err.Error(), 3
}

type capped struct {
	mu sync.Mutex
	b  *strings.Builder
}

func (c *capped) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.b.Len() < 1<<20 {
		c.b.Write(p)
	}
	return len(p), nil
}

func load(p string) *result {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var r result
	if json.Unmarshal(b, &r) != nil {
		return nil
	}
	return &r
}

func (d *driver) merge(engine string, i int, r *result) {
	for n, g := range r.Groups {
		n = engine + "/" + n
		t := d.total.Groups[n]
		if t == nil {
			t = &group{Bound: g.Bound}
			d.total.Groups[n] = t
		}
		t.Cases += g.Cases
		t.States += g.States
		t.Transitions += g.Transitions
		t.Schedules += g.Schedules
		t.Complete += g.Complete
		for k, n := range g.Bounded {
			if t.Bounded == nil {
				t.Bounded = map[string]int64{}
			}
			t.Bounded[k] += n
		}
	}
	d.total.Exhaustive = d.total.Exhaustive && r.Exhaustive
	for _, n := range r.Notes {
		if !slices.Contains(d.total.Notes, n) {
			d.total.Notes = append(d.total.Notes, n)
		}
	}
	for _, v := range r.Violations {
		v.Engine = engine
		d.total.Violations = append(d.total.Violations, v)
	}
	for _, v := range r.Known {
		v.Engine = engine
		if !slices.ContainsFunc(d.total.Known, func(o violation) bool { return o.Known == v.Known }) {
			d.total.Known = append(d.total.Known, v)
		}
	}
	if i < 3 {
		for k, s := range r.Samples {
			if k < 12 {
				d.total.Samples = append(d.total.Samples, engine+"/"+s)
			}
		}
	}
	if b, err := os.ReadFile(filepath.Join(d.tmp, fmt.Sprintf("%s.%d.json.states", engine, i))); err == nil {
		for ; len(b) >= 8; b = b[8:] {
			d.hashes = append(d.hashes, binary.LittleEndian.Uint64(b))
		}
	}
}

func (d *driver) report() int {
	slices.Sort(d.hashes)
	distinct := int64(len(slices.Compact(d.hashes)))
	var cases, states, trans, scheds int64
	for _, g := range d.total.Groups {
		scheds += g.Schedules
		cases += g.Cases
		states += g.States
		trans += g.Transitions
	}
	sort.Strings(d.total.Notes)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        states + distinct,
			"transitions":                   trans,
			"schedules":                     scheds,
			"traces_validated_against_impl": cases,
			"distinct_object_states":        distinct,
			"explored_graph_states":         states,
			"groups":                        d.total.Groups,
			"samples":                       d.total.Samples,
			"exhaustive":                    d.total.Exhaustive,
			"explanation":                   explain[slices.ContainsFunc(plan[d.prop], instrumented)],
			"notes":                         d.total.Notes,
		},
		"assumptions": assumptions(d.prop),
		"wall_s":      time.Since(d.start).Seconds(),
		"violations":  len(d.total.Violations),
	}
	if len(d.total.Samples) == 0 {
		ev["coverage"].(map[string]any)["samples"] = []string{"none: the run ended before a case completed"}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(d.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(d.verif, "evidence", d.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, v := range d.total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, v.Known)
	}
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d schedules, exhaustive within bounds: %v, %.1fs\n", d.prop, d.tier, cases, states+distinct, trans, scheds, d.total.Exhaustive, time.Since(d.start).Seconds())
	if len(d.total.Violations) == 0 {
		return 0
	}
	os.MkdirAll(filepath.Join(d.verif, "replays"), 0o755)
	p := filepath.Join(d.verif, "replays", d.prop+".json")
	v := d.total.Violations[0]
	for _, o := range d.total.Violations {
		if o.Reproduced > v.Reproduced {
			v = o
		}
	}
	b, _ = json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	fmt.Printf("  [%s] %s: %s\n  %s\n  (reproduced %d of 5)\n", v.Engine, v.Group, v.Desc, v.Err, v.Reproduced)
	fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, p)
	return 1
}

var explain = map[bool]string{
	false: "every case is executed on the real code built from the working tree and compared with the reference model; states: distinct object states (format, element type, shape, content) built or produced and read back, united over the shards, plus states of explicitly explored state graphs and vectors of operator arguments; transitions: operations of the real code whose outcome was compared; traces_validated_against_impl: cases (each a sequence of operations replayed against the model)",
	true:  "as for the sequential cases; for the groups of the schedule explorer (conc/..., and sched/... which are sequential cases run under it) a case is one program, states are distinct nodes of its schedule tree, transitions are scheduling steps executed on the instrumented real code, and schedules counts the complete executions",
}
