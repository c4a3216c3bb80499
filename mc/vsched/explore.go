package vsched

import (
	"fmt"
	"strings"
	"time"
	"unsafe"
)

// The functions of this file run on the explorer's goroutine only.

//go:norace
func (e *exec) chanOf(ch unsafe.Pointer, capacity int) *chanState {
	c := e.chans[ch]
	if c == nil {
		c = &chanState{ch: ch, cAddr: new(Addr)}
		for i := 0; i < capacity; i++ {
			c.slots = append(c.slots, new(Addr))
		}
		e.chans[ch] = c
	}
	return c
}

// refresh looks at the real channel, which code that is not instrumented may have closed or filled.
//
//go:norace
func (c *chanState) refresh(k *caseCore) {
	if c.closed || len(c.queue) > 0 || k.poll == nil {
		return
	}
	v, ok, got := k.poll()
	if !got {
		return
	}
	if !ok {
		c.closed = true
	} else {
		c.queue = append(c.queue, item{v})
		if len(c.slots) == 0 {
			c.slots = append(c.slots, new(Addr))
		}
		raceReleaseMerge(c.slots[(c.recvd)%len(c.slots)])
		c.sent++
	}
	raceRelease(c.cAddr)
}

// option is one operation that can be next.
type option struct {
	t    *thread
	alt  int // case of t (-1 default)
	peer *thread
	palt int
}

//go:norace
func (e *exec) options() []option {
	var out []option
	for _, t := range e.threads {
		if t.done {
			continue
		}
		o := &t.op
		if !o.isSel {
			if o.enabled == nil || o.enabled() {
				out = append(out, option{t: t})
			}
			continue
		}
		definite := false
		for i, cs := range o.cases {
			k := cs.core()
			if k.ch == nil {
				continue
			}
			c := e.chanOf(k.ch, k.cap)
			if k.send {
				if c.closed || len(c.queue) < k.cap {
					definite = true
					out = append(out, option{t: t, alt: i})
					continue
				}
				// an unbuffered send pairs with a receive; the pair is listed once, at the receiver
				continue
			}
			c.refresh(k)
			if len(c.queue) > 0 || c.closed {
				definite = true
				out = append(out, option{t: t, alt: i})
				continue
			}
			if k.cap > 0 {
				continue
			}
			for _, p := range e.threads {
				if p.done || p == t || !p.op.isSel {
					continue
				}
				// two selects that both have a default never meet
				if o.def && p.op.def {
					continue
				}
				for j, pc := range p.op.cases {
					if pk := pc.core(); pk.send && pk.ch == k.ch {
						out = append(out, option{t: t, alt: i, peer: p, palt: j})
					}
				}
			}
		}
		if o.def && !definite {
			out = append(out, option{t: t, alt: -1})
		}
	}
	return out
}

//go:norace
func (e *exec) perform(o option) {
	t := o.t
	e.running = t
	op := &t.op
	op.acq, op.rel, op.panics = nil, nil, ""
	if !op.isSel {
		if op.obj != nil || op.apply == nil {
			touch(t, op.obj, op.kind, op.write, 0)
		}
		if op.apply != nil {
			op.apply()
		}
		e.log(t.name, op.kind)
		e.ready = append(e.ready, t)
		return
	}
	op.choice = o.alt
	if o.alt < 0 {
		for _, cs := range op.cases {
			if k := cs.core(); k.ch != nil {
				touch(t, &e.chanOf(k.ch, k.cap).obj, "poll", false, 0)
			}
		}
		touch(t, nil, "default", false, 0)
		e.log(t.name, "select: default")
		e.ready = append(e.ready, t)
		return
	}
	k := op.cases[o.alt].core()
	c := e.chanOf(k.ch, k.cap)
	switch {
	case o.peer != nil:
		p := o.peer
		pk := p.op.cases[o.palt].core()
		p.op.choice, p.op.panics = o.palt, ""
		k.got, k.ok = pk.box, true
		op.acq, op.rel = []*Addr{p.op.post}, nil
		p.op.acq, p.op.rel = []*Addr{op.post}, nil
		h := mix(mix(p.hash, t.hash), uint64(o.alt)<<8|uint64(o.palt))
		p.hash, t.hash = mix(h, 1), mix(h, 2)
		e.log(p.name+">"+t.name, "send")
		e.ready = append(e.ready, p, t)
		return
	case k.send:
		touch(t, &c.obj, "send", true, uint64(o.alt))
		if c.closed {
			op.panics = "send on closed channel"
			op.acq = []*Addr{c.cAddr}
			break
		}
		a := c.slots[c.sent%len(c.slots)]
		c.sent++
		c.queue = append(c.queue, item{k.box})
		op.acq, op.rel = []*Addr{a}, []*Addr{a}
		e.log(t.name, "send (buffered)")
	case len(c.queue) > 0:
		touch(t, &c.obj, "recv", true, uint64(o.alt))
		k.got, k.ok = c.queue[0].v, true
		c.queue = c.queue[1:]
		a := c.slots[c.recvd%len(c.slots)]
		c.recvd++
		op.acq, op.rel = []*Addr{a}, []*Addr{a}
		e.log(t.name, "receive (buffered)")
	default:
		touch(t, &c.obj, "recvclosed", false, uint64(o.alt))
		k.got, k.ok = nil, false
		op.acq = []*Addr{c.cAddr}
		e.log(t.name, "receive (closed)")
	}
	e.ready = append(e.ready, t)
}

//go:norace
func (e *exec) log(n, k string) { e.trace = append(e.trace, step{n, k}) }

// settle runs every thread that can continue up to its next operation.
//
//go:norace
func (e *exec) settle() {
	for i := 0; i < len(e.ready); i++ {
		t := e.ready[i]
		e.running = t
		raceDisable()
		t.grant <- true
		<-e.toCtl
		raceEnable()
	}
	e.ready = e.ready[:0]
}

//go:norace
func (e *exec) teardown() {
	e.abort = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		for !t.done {
			e.running = t
			raceDisable()
			t.grant <- false
			<-e.toCtl
			raceEnable()
		}
	}
	raceAcquire(e.end)
}

// Options bounds an exploration.
type Options struct {
	MaxExec  int           // executions per pass (0: 200000)
	Time     time.Duration // wall time of the exploration (0: 60 s)
	Bounds   []int         // preemption bounds of the passes; -1 is unbounded (nil: 0, 1, 2, -1)
	NoCache  bool          // do not merge executions with equal happens-before (needed when the order of unrelated events matters)
	Delay    bool          // every deviation from the default choice costs one, not only preemptions
	MaxSteps int           // per execution (0: 60000)
	Threads  int           // goroutines per execution (0: 512)
	Seen     func(uint64)  // called with the hash of every distinct state
}

// Report is what an exploration covered.
type Report struct {
	Schedules int64  // complete executions
	Pruned    int64  // executions cut because their state was known
	States    int64  // distinct states
	Steps     int64  // operations performed
	Complete  bool   // every schedule was covered
	Bound     int    // largest preemption bound covered completely (-1: unbounded; -2: none)
	Failure   string // the first violation
	Note      string
}

type node struct {
	n     int
	cur   int
	costs []int8
	used  int
}

// Explore runs program under every schedule and calls check after each complete execution.
// Both return a description of what is wrong, or "".
//
//go:norace
func Explore(opt Options, program func(), check func() string) (rep Report) {
	if opt.MaxExec == 0 {
		opt.MaxExec = 200000
	}
	if opt.Time == 0 {
		opt.Time = 60 * time.Second
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 60000
	}
	if opt.Threads == 0 {
		opt.Threads = 512
	}
	if opt.Bounds == nil {
		opt.Bounds = []int{0, 1, 2, -1}
	}
	deadline := time.Now().Add(opt.Time)
	rep.Bound = -2
	states := map[uint64]struct{}{}
	for _, b := range opt.Bounds {
		p := pass{opt: opt, bound: b, program: program, check: check, deadline: deadline, rep: &rep, visited: map[uint64]int{}, states: states}
		if !p.run() || rep.Failure != "" {
			return rep
		}
		rep.Bound = b
		if !p.cut {
			rep.Bound = -1
			rep.Complete = true
			return rep
		}
	}
	return rep
}

type pass struct {
	opt      Options
	bound    int
	program  func()
	check    func() string
	deadline time.Time
	rep      *Report
	visited  map[uint64]int
	states   map[uint64]struct{}
	stack    []node
	cut      bool
	execs    int
}

// known counts a state once.
//
//go:norace
func (p *pass) known(k uint64) bool {
	if _, ok := p.states[k]; ok {
		return false
	}
	p.states[k] = struct{}{}
	p.rep.States++
	return true
}

// run performs the pass; false means it was not completed.
//
//go:norace
func (p *pass) run() bool {
	for {
		p.execs++
		if !p.one() {
			return false
		}
		if p.rep.Failure != "" {
			return true
		}
		// backtrack
		for len(p.stack) > 0 {
			top := &p.stack[len(p.stack)-1]
			next := top.cur + 1
			for next < top.n {
				if p.bound < 0 || top.used+int(top.costs[next]) <= p.bound {
					break
				}
				p.cut = true
				next++
			}
			if next < top.n {
				top.cur = next
				break
			}
			p.stack = p.stack[:len(p.stack)-1]
		}
		if len(p.stack) == 0 {
			return true
		}
		if p.execs >= p.opt.MaxExec || p.execs&63 == 0 && time.Now().After(p.deadline) {
			return false
		}
	}
}

const spin = 1500

// one runs one execution along the stack and extends it; false means the program is not deterministic.
//
//go:norace
func (p *pass) one() bool {
	Cold()
	epochs++
	e := &exec{toCtl: make(chan *thread, 1), chans: map[unsafe.Pointer]*chanState{}, epoch: epochs, end: new(Addr)}
	e.threads = make([]*thread, 0, p.opt.Threads)
	e.ready = make([]*thread, 0, 2*p.opt.Threads)
	errs := raceErrors()
	ex = e
	defer func() { ex = nil }()
	spawn(p.program)
	depth, used, consecutive := 0, 0, 0
	var last *thread
	for {
		e.settle()
		if n := raceErrors(); n != errs {
			p.fail(e, "data race: "+raceText())
			return true
		}
		if e.full {
			p.rep.Note = "more goroutines than the explorer follows"
			e.teardown()
			return false
		}
		for _, t := range e.threads {
			if t.panicv != "" {
				p.fail(e, t.panicv)
				return true
			}
		}
		opts := e.options()
		if len(opts) == 0 {
			break
		}
		if e.steps++; e.steps > p.opt.MaxSteps {
			p.fail(e, "does not terminate: no end in sight on a fair schedule")
			return true
		}
		p.rep.Steps++
		choice := 0
		if len(opts) > 1 {
			if depth < len(p.stack) {
				nd := &p.stack[depth]
				if nd.n != len(opts) {
					p.rep.Note = "the program behaved differently on a repeated schedule"
					e.teardown()
					return false
				}
				choice = nd.cur
				order(e, opts, last, consecutive)
				used = nd.used + int(nd.costs[choice])
			} else {
				costs := order(e, opts, last, consecutive)
				if p.opt.Delay {
					for i := range costs {
						costs[i] = int8(min(i, 1))
					}
				}
				if !p.opt.NoCache {
					key := e.key()
					left := 1 << 30
					if p.bound >= 0 {
						left = p.bound - used
						if last != nil {
							key = mix(key, hashString(last.name))
						}
					}
					if old, ok := p.visited[key]; ok && old >= left {
						p.rep.Pruned++
						e.teardown()
						return true
					}
					p.visited[key] = left
				}
				if k := e.key(); p.known(k) && p.opt.Seen != nil {
					p.opt.Seen(k)
				}
				nd := node{n: len(opts), costs: costs, used: used}
				p.stack = append(p.stack, nd)
				used += int(costs[0])
			}
			depth++
		}
		o := opts[choice]
		nl := o.t
		if o.peer != nil && last == o.peer {
			nl = o.peer
		}
		if nl == last {
			consecutive++
		} else {
			consecutive = 0
		}
		last = nl
		e.perform(o)
	}
	blocked := e.blocked()
	if blocked != "" {
		// something outside the exploration (a timer) may still wake them
		for i := 0; i < 4 && len(e.options()) == 0; i++ {
			time.Sleep(40 * time.Millisecond)
		}
		if len(e.options()) != 0 {
			p.rep.Note = "the program waits for real time"
			e.teardown()
			return false
		}
		if !e.threads[0].done {
			p.fail(e, "deadlock: "+blocked)
			return true
		}
		p.fail(e, "goroutines left behind: "+blocked)
		return true
	}
	raceAcquire(e.end)
	ex = nil
	p.rep.Schedules++
	if p.check != nil {
		if m := p.check(); m != "" {
			p.rep.Failure = m + e.schedule()
		}
	}
	return true
}

//go:norace
func (p *pass) fail(e *exec, m string) {
	p.rep.Failure = m + e.schedule()
	e.teardown()
}

//go:norace
func (e *exec) schedule() string {
	var b strings.Builder
	b.WriteString(" | schedule:")
	for i, s := range e.trace {
		if len(e.trace) > 80 && i == 60 {
			fmt.Fprintf(&b, " ... (%d steps)", len(e.trace))
			break
		}
		fmt.Fprintf(&b, " %s:%s;", s.name, s.kind)
	}
	return b.String()
}

//go:norace
func (e *exec) blocked() string {
	var out []string
	for _, t := range e.threads {
		if !t.done {
			k := t.op.kind
			if t.op.isSel {
				k = ""
				for _, c := range t.op.cases {
					if c.core().send {
						k += " send"
					} else {
						k += " receive"
					}
				}
				k = "waits to" + k
			}
			out = append(out, t.name+" "+k)
		}
	}
	return strings.Join(out, ", ")
}

//go:norace
func (e *exec) key() uint64 {
	var h uint64
	for _, t := range e.threads {
		d := uint64(0)
		if t.done {
			d = 1
		}
		h += mix(mix(hashString(t.name), t.hash), d)
	}
	return h
}

// order puts the options in canonical order, those that continue the last thread first, and
// returns the number of preemptions each costs.
//
//go:norace
func order(e *exec, opts []option, last *thread, consecutive int) []int8 {
	costs := make([]int8, len(opts))
	mine := 0
	if last != nil {
		for i := range opts {
			if opts[i].t == last || opts[i].peer == last {
				o := opts[i]
				copy(opts[mine+1:i+1], opts[mine:i])
				opts[mine] = o
				mine++
			}
		}
	}
	if mine > 0 && mine < len(opts) {
		if consecutive >= spin {
			// a thread that spins gives way: the others come first and cost nothing
			rot := append(append([]option(nil), opts[mine:]...), opts[:mine]...)
			copy(opts, rot)
			return costs
		}
		for i := mine; i < len(opts); i++ {
			costs[i] = 1
		}
	}
	return costs
}

// RaceLog, when set, returns the text of the latest race report.
var RaceLog func() string

//go:norace
func raceText() string {
	if RaceLog != nil {
		return RaceLog()
	}
	return ""
}
