package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	gb "github.com/rossmerr/graphblas"
	gbsort "github.com/rossmerr/graphblas/sort"
	"verif.local/mc/model"
	"verif.local/mc/rep"
)

// ---- P32: contexts with a mode ----------------------------------------------

type ctxKey int

// ctxModel is what a chain of contexts is expected to say.
type ctxModel struct {
	mode     gb.Mode
	hasMode  bool
	inner    bool // a mode further in; whether a derived context reports it is not specified
	last     gb.Mode
	values   map[ctxKey]int
	deadline time.Time
	hasDL    bool
	cancels  []int // the cancel functions which cancel it
}

func (m ctxModel) clone() ctxModel {
	n := m
	n.values = map[ctxKey]int{}
	for k, v := range m.values {
		n.values[k] = v
	}
	n.cancels = append([]int(nil), m.cancels...)
	return n
}

const ctxSteps = 7

var ctxStepNames = [ctxSteps]string{"Blocking", "NonBlocking", "value", "other value", "cancel", "deadline", "later deadline"}

// ctxChain builds the chain of wrappers given by its steps (outermost last).
func ctxChain(steps []int) (ctxs []context.Context, ms []ctxModel, cancels []context.CancelCauseFunc, stop func()) {
	c := context.Background()
	m := ctxModel{values: map[ctxKey]int{}}
	var stops []func()
	near, far := time.Now().Add(time.Hour), time.Now().Add(2*time.Hour)
	ctxs, ms = append(ctxs, c), append(ms, m)
	for i, s := range steps {
		m = m.clone()
		m.inner = m.inner || m.hasMode
		m.hasMode, m.mode = false, gb.Blocking
		switch s {
		case 0, 1:
			m.hasMode, m.mode = true, []gb.Mode{gb.Blocking, gb.NonBlocking}[s]
			m.last = m.mode
			c = gb.NewContext(c, m.mode)
		case 2:
			m.values[1] = i + 1
			c = context.WithValue(c, ctxKey(1), i+1)
		case 3:
			m.values[2] = i + 1
			c = context.WithValue(c, ctxKey(2), i+1)
		case 4:
			var f context.CancelCauseFunc
			c, f = context.WithCancelCause(c)
			m.cancels = append(m.cancels, len(cancels))
			cancels = append(cancels, f)
			stops = append(stops, func() { f(nil) })
		case 5, 6:
			d := []time.Time{near, far}[s-5]
			var f context.CancelFunc
			c, f = context.WithDeadline(c, d)
			if !m.hasDL || d.Before(m.deadline) {
				m.hasDL, m.deadline = true, d
			}
			stops = append(stops, func() { f() })
		}
		ctxs, ms = append(ctxs, c), append(ms, m)
	}
	return ctxs, ms, cancels, func() {
		for i := len(stops) - 1; i >= 0; i-- {
			stops[i]()
		}
	}
}

func ctxCheck(c context.Context, m ctxModel, cause error) error {
	mode, ok := gb.BlockingMode(c)
	derived := m.inner && !m.hasMode && ok && mode == m.last
	if !derived && (mode != m.mode || ok != m.hasMode) {
		return rep.Errf("BlockingMode = %v, %v, want %v, %v", mode, ok, m.mode, m.hasMode)
	}
	if g, is := c.(gb.Context); m.hasMode && (!is || g.Mode() != m.mode) {
		return rep.Errf("as a Context: %v", is)
	}
	for k := ctxKey(0); k < 4; k++ {
		v := c.Value(k)
		if w, has := m.values[k]; has != (v != nil) || has && v != w {
			return rep.Errf("Value(%d) = %v, want %v", k, v, w)
		}
	}
	if d, has := c.Deadline(); has != m.hasDL || has && !d.Equal(m.deadline) {
		return rep.Errf("Deadline = %v, %v, want %v, %v", d, has, m.deadline, m.hasDL)
	}
	done := false
	select {
	case <-c.Done():
		done = true
	default:
	}
	if done != (cause != nil) || (c.Err() != nil) != done {
		return rep.Errf("done %v, error %v, cancelled by %v", done, c.Err(), cause)
	}
	if done && (!errors.Is(c.Err(), context.Canceled) || context.Cause(c) != cause) {
		return rep.Errf("error %v, cause %v, want cause %v", c.Err(), context.Cause(c), cause)
	}
	return nil
}

// ctxKeys are keys a user may choose for a value of a context: plain values, the library's own
// types, types that look like it.
func ctxKeys() []any {
	type key struct{}
	type mode int
	type Mode int
	type contextKey string
	p, q := new(int), new(gb.Mode)
	return []any{0, 1, -1, int8(0), int64(0), uint(0), uint8(1), uintptr(0), 0.0, float32(1), 0i, false, true, "", "mode", "Mode", "blocking", "graphblas", "graphblas.mode", 'm',
		gb.Blocking, gb.NonBlocking, gb.Mode(2), mode(0), mode(1), Mode(0), Mode(1), struct{}{}, key{}, struct{ k int }{1}, [0]int{}, [2]int{1, 2}, p, q, (*int)(nil), (*gb.Mode)(nil),
		contextKey("mode"), contextKey(""), ctxKey(0), errors.ErrUnsupported, context.Canceled, time.Second, context.Background(), (*gb.Context)(nil)}
}

// p32Keys: no key of the user's collides with one of the library's.
func p32Keys(r *rep.R) {
	r.Group("keys of values", "for every key of a list of 44 (integers, strings, booleans, empty structures, pointers, values of the library's own types and of types that look like them): a value stored under it before, between and after two modes is read back from the contexts derived from it and from no other, every other key of the list reads nothing, and the modes stay what they were")
	keys := ctxKeys()
	for i := range keys {
		for _, modes := range [][2]gb.Mode{{gb.Blocking, gb.NonBlocking}, {gb.NonBlocking, gb.Blocking}} {
			for where := 0; where < 3; where++ {
				r.Case(func() string { return fmt.Sprintf("key %T %v modes %v position %d", keys[i], i, modes, where) }, func() error {
					c, has := context.Background(), false
					for k := 0; k < 3; k++ {
						if k == where {
							c, has = context.WithValue(c, keys[i], "stored"), true
						}
						if k < 2 {
							c = gb.NewContext(c, modes[k])
							if m, ok := gb.BlockingMode(c); !ok || m != modes[k] {
								return rep.Errf("BlockingMode = %v, %v after level %d", m, ok, k)
							}
						}
						for j := range keys {
							r.Step(1)
							v := c.Value(keys[j])
							if want := has && keys[j] == keys[i]; want && v != "stored" || !want && v != nil {
								return rep.Errf("level %d: Value(%T %v) = %v", k, keys[j], j, v)
							}
						}
					}
					return nil
				})
			}
		}
	}
}

func p32(r *rep.R) {
	r.Group("chains", "every chain of up to 4 (thorough 5) wrappers over {a mode, the other mode, a value, another value, cancellation, a deadline, a later deadline}; every context of the chain examined before and after each of its cancellations, in every position")
	top := 4
	if r.Thorough {
		top = 5
	}
	for n := 0; n <= top; n++ {
		for code := 0; code < model.Pow(ctxSteps, n); code++ {
			steps := make([]int, n)
			for i, k := 0, code; i < n; i, k = i+1, k/ctxSteps {
				steps[i] = k % ctxSteps
			}
			r.Case(func() string {
				s := "chain"
				for _, k := range steps {
					s += " > " + ctxStepNames[k]
				}
				return s
			}, func() error {
				_, _, cs, stop := ctxChain(steps)
				nc := len(cs)
				stop()
				for which := -1; which < nc; which++ {
					ctxs, ms, cancels, stop := ctxChain(steps)
					cause := errors.New("the cause")
					if which >= 0 {
						for i := range ctxs {
							if err := ctxCheck(ctxs[i], ms[i], nil); err != nil {
								stop()
								return rep.Errf("context %d before: %v", i, err)
							}
						}
						cancels[which](cause)
					}
					for i := range ctxs {
						r.Step(1)
						var want error
						for _, k := range ms[i].cancels {
							if k == which {
								want = cause
							}
						}
						if err := ctxCheck(ctxs[i], ms[i], want); err != nil {
							stop()
							return rep.Errf("context %d with cancellation %d: %v", i, which, err)
						}
					}
					stop()
				}
				return nil
			})
		}
	}
	p32Keys(r)
	r.Group("sorts under modes", "")
	for code := 0; code < 81; code++ {
		r.Case(func() string { return fmt.Sprintf("sort under modes %d", code) }, func() error {
			m := model.Decode(2, 2, []rune{0, 'a', 'é'}, code)
			for _, mode := range []gb.Mode{gb.Blocking, gb.NonBlocking} {
				c := gb.NewContext(bg, mode)
				for _, f := range matFL {
					x := mkL[rune](f, m, 1)
					r.Step(5)
					if err := expect[rune](gbsort.BubbleRow(c, x), read[rune](gbsort.BubbleRow(bg, x)), "sorted rows"); err != nil {
						return err
					}
					if err := expect[rune](gbsort.BubbleColumns(c, x), read[rune](gbsort.BubbleColumns(bg, x)), "sorted columns"); err != nil {
						return err
					}
					y := mkL[rune](f, model.Transpose(m), 1)
					if a, b := gb.Compare(c, x, y), gb.Compare(bg, x, y); a != b {
						return rep.Errf("Compare is %d under a mode, %d without", a, b)
					}
					if a, b := gb.Less(c, x, y), gb.Less(bg, x, y); a != b {
						return rep.Errf("Less is %v under a mode, %v without", a, b)
					}
					if a, b := gb.String(c, x), gb.String(bg, x); a != b {
						return rep.Errf("String is %q under a mode, %q without", a, b)
					}
				}
			}
			return nil
		})
	}
}

// P32 runs every operation under contexts with a mode.
func (t tc[T]) P32(r *rep.R) {
	r.Group("operations under modes", "every operation of P20's list under contexts with either mode (outermost or inside), for every format, mask and nonempty outputs: the result is the one without a mode when the call returns; cancelled before the call: as cancelled without a mode")
	for _, s := range [][2]int{{1, 1}, {2, 2}, {2, 3}, {3, 1}, {5, 5}, {17, 3}, {65, 1}} {
		for _, o := range cutOps[T]() {
			if (o.vecOut || o.name == "MatrixMatrixMultiply") && s[0] != s[1] || s[0] > 3 && !t.deep {
				continue
			}
			so := s
			if o.tr {
				so = [2]int{s[1], s[0]}
			}
			if o.vecOut {
				so[1] = 1
			}
			for _, fa := range fmts(s[1]) {
				fos := fmts(so[1])
				if o.vecOut {
					fos = vecF
				}
				if o.fresh || o.alias > 0 {
					fos = fos[:1]
				}
				for _, fo := range fos {
					r.Case(func() string { return fmt.Sprintf("mode %s %s %v->%v %v", t.name, o.name, fa, fo, s) }, func() error {
						for variant := 0; variant < 4; variant++ {
							ms := []Mat[T]{family(s[0], s[1], []int{1, 6, 4, 8}[variant], T(3), T(2)), family(s[0], s[1], []int{6, 1, 8, 4}[variant], T(4), T(5))}
							fs := []fm{fa, fmts(s[1])[variant%len(fmts(s[1]))]}
							if o.vecOut {
								ms[1], fs[1] = family(s[1], 1, 1, T(3), T(2)), vecF[variant%2]
							}
							prev := family(so[0], so[1], []int{1, 0, 8, 5}[variant], T(7), T(9))
							mm := family(so[0], so[1], []int{0, 6, 2, 8}[variant], T(1), T(1))
							run := func(c context.Context) Mat[T] {
								in := make([]gb.Matrix[T], o.nin)
								for i := range in {
									in[i] = mk(fs[i], ms[i], 1)
								}
								out := mk(fo, prev, 3)
								if o.alias > 0 {
									out = in[o.alias-1]
								}
								return read[T](o.do(c, in, mk(fDEN, mm, 1), out))
							}
							gone, cancel := context.WithCancel(bg)
							cancel()
							for _, base := range []context.Context{bg, gone} {
								if base == gone && o.fresh && o.loose {
									continue // what a cancelled one returns is not specified
								}
								want := run(base)
								for k := 0; k < 6; k++ {
									c := gb.NewContext(base, []gb.Mode{gb.Blocking, gb.NonBlocking}[k%2])
									switch k / 2 {
									case 1:
										c = context.WithValue(c, ctxKey(1), 1)
									case 2:
										c = gb.NewContext(c, gb.Blocking)
									}
									r.Step(1)
									got := run(c)
									if got.R != want.R || got.C != want.C {
										return rep.Errf("context %d: %dx%d, want %dx%d", k, got.R, got.C, want.R, want.C)
									}
									for i := range want.D {
										if !model.Same(got.D[i], want.D[i]) {
											return rep.Errf("context %d (cancelled: %v): %v, want %v", k, base == gone, got, want)
										}
									}
								}
							}
						}
						return nil
					})
				}
			}
		}
	}
}
