package vsched

import (
	"reflect"
	"unsafe"
)

// Case is one communication of a select statement.
type Case interface {
	core() *caseCore
	native() reflect.SelectCase
	nativeDone(v reflect.Value, ok bool)
	try() bool
	finish()
}

type caseCore struct {
	send bool
	ch   unsafe.Pointer
	cap  int
	box  any                               // the value to send
	poll func() (v any, ok bool, got bool) // receive: look at the real channel
	// outcome
	got any
	ok  bool
}

// RecvC is a receive.
type RecvC[T any] struct {
	caseCore
	c  <-chan T
	V  T
	OK bool
}

// SendC is a send.
type SendC[T any] struct {
	caseCore
	c chan<- T
	v T
}

// RecvCase is `case ... <-c`.
//
//go:norace
func RecvCase[T any](c <-chan T) *RecvC[T] {
	r := &RecvC[T]{c: c}
	if active() {
		r.ch = *(*unsafe.Pointer)(unsafe.Pointer(&c))
		r.cap = cap(c)
		r.poll = func() (v any, ok bool, got bool) {
			select {
			case x, ok := <-c:
				return x, ok, true
			default:
				return nil, false, false
			}
		}
	}
	return r
}

// SendCase is `case c <- v`.
//
//go:norace
func SendCase[T any](c chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] {
		s := &SendC[T]{c: c, v: v}
		s.send = true
		if active() {
			s.ch = *(*unsafe.Pointer)(unsafe.Pointer(&c))
			s.cap = cap(c)
			s.box = v
		}
		return s
	}
}

//go:norace
func (r *RecvC[T]) core() *caseCore { return &r.caseCore }

//go:norace
func (s *SendC[T]) core() *caseCore { return &s.caseCore }

//go:norace
func (r *RecvC[T]) finish() {
	if r.got != nil {
		r.V = r.got.(T)
	}
	r.OK = r.ok
}

//go:norace
func (s *SendC[T]) finish() {}

//go:norace
func (r *RecvC[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}

//go:norace
func (s *SendC[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}

//go:norace
func (r *RecvC[T]) nativeDone(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
}

//go:norace
func (s *SendC[T]) nativeDone(reflect.Value, bool) {}

//go:norace
func (r *RecvC[T]) try() bool {
	select {
	case r.V, r.OK = <-r.c:
		return true
	default:
		return false
	}
}

//go:norace
func (s *SendC[T]) try() bool {
	select {
	case s.c <- s.v:
		return true
	default:
		return false
	}
}

// Select performs a select statement and returns the chosen case, or -1 for the default.
//
//go:norace
func Select(def bool, cases ...Case) int {
	if !active() {
		return nativeSelect(def, cases)
	}
	if aborting() {
		return abortedSelect(def, len(cases))
	}
	if def {
		all := true
		for _, c := range cases {
			if c.core().ch != nil {
				all = false
				break
			}
		}
		if all {
			return -1
		}
	}
	i := selectOp(def, cases)
	if i >= 0 {
		cases[i].finish()
	}
	return i
}

//go:norace
func nativeSelect(def bool, cases []Case) int {
	if def && len(cases) == 1 {
		if cases[0].try() {
			return 0
		}
		return -1
	}
	var rc []reflect.SelectCase
	for _, c := range cases {
		rc = append(rc, c.native())
	}
	if def {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return -1
	}
	cases[i].nativeDone(v, ok)
	return i
}

// Recv is `<-c`.
//
//go:norace
func Recv[T any](c <-chan T) T {
	if !active() {
		return <-c
	}
	r := RecvCase(c)
	Select(false, r)
	return r.V
}

// Recv2 is `v, ok := <-c`.
//
//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	if !active() {
		v, ok := <-c
		return v, ok
	}
	r := RecvCase(c)
	Select(false, r)
	return r.V, r.OK
}

// SendTo is `c <- v`.
//
//go:norace
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		if !active() {
			c <- v
			return
		}
		Select(false, SendCase(c)(v))
	}
}

// Close is close(c).
//
//go:norace
func Close[T any](c chan<- T) {
	if !active() {
		close(c)
		return
	}
	if aborting() {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	closeOp(*(*unsafe.Pointer)(unsafe.Pointer(&c)), cap(c), func() { close(c) })
}

// Len is len(c).
//
//go:norace
func Len[T any](c <-chan T) int {
	if !active() || c == nil || aborting() {
		return len(c)
	}
	return lenOp(*(*unsafe.Pointer)(unsafe.Pointer(&c)), cap(c))
}

// Block is `select {}`.
//
//go:norace
func Block() {
	if !active() {
		select {}
	}
	if aborting() {
		return
	}
	selectOp(false, nil)
}
