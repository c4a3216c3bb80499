// Package vsched runs a program under every schedule.
//
// The code under test is rewritten so that goroutines, channel operations, locks and atomics
// call this package. During an exploration one goroutine runs at a time; before each
// operation that another goroutine could observe, it hands control to the explorer, which
// enumerates every operation that could be next and follows each of them, one execution per
// schedule. Real happens-before edges are reported to the race detector while those of the
// hand-over itself are hidden from it, so an unordered pair of accesses is reported in
// whatever order the schedule happens to run it.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// Addr is an address for happens-before annotations.
type Addr struct{ _ [8]byte }

// Obj is the identity of a synchronisation object in the happens-before hash.
type Obj struct {
	id, w, r uint64
	epoch    uint64
}

type thread struct {
	name    string
	idx     int
	kids    int
	objs    uint64
	hash    uint64
	grant   chan bool // false: abort
	op      op
	started bool
	done    bool
	body    func()
	panicv  string
}

type op struct {
	kind    string
	cases   []Case
	def     bool
	isSel   bool
	enabled func() bool // nil: always
	apply   func()
	obj     *Obj
	write   bool
	post    *Addr
	acq     []*Addr
	rel     []*Addr
	choice  int
	panics  string
}

type chanState struct {
	ch     unsafe.Pointer
	obj    Obj
	queue  []item
	closed bool
	cAddr  *Addr
	slots  []*Addr
	sent   int
	recvd  int
}

type item struct{ v any }

type exec struct {
	full    bool // more goroutines than there is room for
	threads []*thread
	ready   []*thread
	running *thread
	toCtl   chan *thread
	chans   map[unsafe.Pointer]*chanState
	abort   bool
	epoch   uint64
	steps   int
	clock   int
	end     *Addr
	trace   []step
}

type step struct {
	name, kind string
}

var (
	ex     *exec
	epochs uint64
)

//go:norace
func active() bool { return ex != nil }

//go:norace
func aborting() bool { return ex.abort }

//go:norace
func abortedSelect(def bool, n int) int {
	if def {
		return -1
	}
	runtime.Goexit()
	return 0
}

// Active reports whether an exploration is running.
func Active() bool { return active() }

// Epoch identifies the running execution (0: none).
//
//go:norace
func Epoch() uint64 {
	if ex == nil {
		return 0
	}
	return ex.epoch
}

// Aborting reports whether the execution is being torn down.
//
//go:norace
func Aborting() bool { return ex != nil && ex.abort }

// Acquire and Release report real happens-before edges to the race detector.
func Acquire(p *Addr)      { raceAcquire(p) }
func Release(p *Addr)      { raceRelease(p) }
func ReleaseMerge(p *Addr) { raceReleaseMerge(p) }

//go:norace
func mix(a, b uint64) uint64 {
	h := a ^ (b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2))
	h ^= h >> 31
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 29
	h *= 0x94d049bb133111eb
	h ^= h >> 32
	return h
}

//go:norace
func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// touch orders an event of the thread t on object o in the happens-before hash.
//
//go:norace
func touch(t *thread, o *Obj, kind string, write bool, extra uint64) {
	if o == nil {
		t.hash = mix(mix(t.hash, hashString(kind)), extra)
		return
	}
	if o.epoch != ex.epoch {
		t.objs++
		*o = Obj{id: mix(mix(t.hash, 77), t.objs), epoch: ex.epoch}
		o.w = o.id
	}
	e := mix(mix(mix(t.hash, o.w), hashString(kind)), extra)
	if write {
		e = mix(e, o.r)
		o.w, o.r = e, 0
	} else {
		o.r += mix(e, 3)
	}
	t.hash = e
}

// Touch records an event on o that is not a scheduling point.
//
//go:norace
func Touch(o *Obj, kind string, write bool) {
	if ex == nil || ex.abort {
		return
	}
	touch(ex.running, o, kind, write, 0)
}

// post hands the thread's next operation to the explorer and waits until it was performed.
//
//go:norace
func post(o op) *thread {
	t := ex.running
	t.op = o
	raceDisable()
	ex.toCtl <- t
	ok := <-t.grant
	raceEnable()
	if !ok {
		runtime.Goexit()
	}
	for _, a := range t.op.acq {
		raceAcquire(a)
	}
	for _, a := range t.op.rel {
		raceRelease(a)
	}
	if t.op.panics != "" {
		panic(t.op.panics)
	}
	return t
}

// Point is a scheduling point: the operation is performed by apply when the explorer chooses
// it, which it may once enabled (nil: always) holds. It returns false during teardown.
//
//go:norace
func Point(kind string, o *Obj, write bool, enabled func() bool, apply func()) bool {
	if ex.abort {
		return false
	}
	post(op{kind: kind, obj: o, write: write, enabled: enabled, apply: apply})
	return true
}

// Yield is a scheduling point without an effect.
//
//go:norace
func Yield() {
	if ex == nil || ex.abort {
		return
	}
	post(op{kind: "yield"})
}

// Now is a clock that ticks once per call, without ordering the callers.
//
//go:norace
func Now() int {
	if ex == nil {
		return 0
	}
	ex.clock++
	return ex.clock
}

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	if !active() {
		time.Sleep(d)
		return
	}
	Yield()
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if !active() {
		runtime.Gosched()
		return
	}
	Yield()
}

//go:norace
func selectOp(def bool, cases []Case) int {
	t := post(op{kind: "select", isSel: true, def: def, cases: cases, post: newAddr()})
	return t.op.choice
}

//go:norace
func newAddr() *Addr {
	a := new(Addr)
	raceRelease(a)
	return a
}

//go:norace
func closeOp(ch unsafe.Pointer, capacity int, real func()) {
	e := ex
	var c *chanState
	o := op{kind: "close"}
	o.apply = func() {
		c = e.chanOf(ch, capacity)
		touch(e.running, &c.obj, "close", true, 0)
	}
	t := post(o)
	_ = t
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	raceRelease(c.cAddr)
	real()
}

//go:norace
func lenOp(ch unsafe.Pointer, capacity int) int {
	e := ex
	n := 0
	post(op{kind: "len", apply: func() {
		c := e.chanOf(ch, capacity)
		touch(e.running, &c.obj, "len", false, 0)
		n = len(c.queue)
	}})
	return n
}

// Go replaces the go statement.
func Go(f func()) {
	if !active() {
		go f()
		return
	}
	if aborting() {
		return
	}
	spawn(f)
}

//go:norace
func spawn(f func()) {
	e := ex
	p := e.running
	t := &thread{grant: make(chan bool, 1), idx: len(e.threads), body: f}
	if p == nil {
		t.name = "0"
		t.hash = 1
	} else {
		t.name = fmt.Sprintf("%s.%d", p.name, p.kids)
		p.kids++
		p.hash = mix(p.hash, 5)
		t.hash = mix(p.hash, 9)
	}
	e.link(t)
	go threadMain(e, t)
}

// link adds a thread; the slice has room, so no other goroutine's slice is ever reallocated.
//
//go:norace
func (e *exec) link(t *thread) {
	if len(e.threads) == cap(e.threads) || len(e.ready) == cap(e.ready) {
		e.full = true
		panic("vsched: too many goroutines in one execution")
	}
	e.threads = e.threads[:len(e.threads)+1]
	e.threads[len(e.threads)-1] = t
	e.ready = e.ready[:len(e.ready)+1]
	e.ready[len(e.ready)-1] = t
}

//go:norace
func threadMain(e *exec, t *thread) {
	raceDisable()
	ok := <-t.grant
	raceEnable()
	defer threadExit(e, t)
	if !ok {
		return
	}
	defer catch(t)
	t.body()
}

//go:norace
func catch(t *thread) {
	if p := recover(); p != nil {
		if !ex.abort {
			t.panicv = fmt.Sprintf("panic in goroutine %s: %v [%s]", t.name, p, frames())
		}
	}
}

//go:norace
func threadExit(e *exec, t *thread) {
	t.done = true
	raceReleaseMerge(e.end)
	raceDisable()
	e.toCtl <- t
	raceEnable()
}

func frames() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/vsched/") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/log/") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// The machine the code under test believes to run on.
const cpus = 4

// NumCPU is runtime.NumCPU.
func NumCPU() int { return cpus }

// GOMAXPROCS is runtime.GOMAXPROCS.
func GOMAXPROCS(int) int { return cpus }
