package main

import (
	"context"
	"fmt"
	"time"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/math/strassen"

	"verif.local/mc/rep"
	"verif.local/mc/vsched"
)

// digits is neither commutative nor associative: the fold shows every value and its position.
func digits() binaryop.MonoID[int] {
	return binaryop.NewMonoID(7, binaryop.NewBinaryOp(func(a, b int) int { return a*31 + b }))
}

func fold(vs ...int) int {
	x := 7
	for _, v := range vs {
		x = x*31 + v
	}
	return x
}

type stream struct {
	k, cap      int
	signalClose bool // completion is signalled by closing done, not by a value
	close       int  // the value stream is closed: 0 never, 1 before completion is signalled, 2 after
}

func (s stream) String() string {
	return fmt.Sprintf("%d values, buffer %d, done %s, stream closed %s", s.k, s.cap, map[bool]string{false: "by a value", true: "by closing"}[s.signalClose], []string{"never", "before", "after"}[s.close])
}

// feed sends the values and signals completion.
func (s stream) feed(done chan struct{}, slice chan int, first int) {
	for i := 0; i < s.k; i++ {
		vsched.SendTo(slice)(first + i)
	}
	if s.close == 1 {
		vsched.Close(slice)
	}
	if s.signalClose {
		vsched.Close(done)
	} else {
		vsched.SendTo(done)(struct{}{})
	}
	if s.close == 2 {
		vsched.Close(slice)
	}
}

func (s stream) want(first int) int {
	var vs []int
	for i := 0; i < s.k; i++ {
		vs = append(vs, first+i)
	}
	return fold(vs...)
}

func streams(r *rep.R) (out []stream) {
	maxk, maxc := 5, 5
	if r.Thorough {
		maxk, maxc = 8, 8
	}
	for k := 0; k <= maxk; k++ {
		for c := 0; c <= maxc; c++ {
			for cl := 0; cl < 3; cl++ {
				for _, sc := range []bool{false, true} {
					out = append(out, stream{k, c, sc, cl})
				}
			}
		}
	}
	return
}

func p19(r *rep.R) {
	r.Group("one stream", "0..5 values (thorough 8), buffers of 0..5 (8), completion by a value or by closing, the stream never closed or closed before or after completion is signalled; sender, reducer and receiver in separate goroutines, under every schedule")
	for _, s := range streams(r) {
		explore(r, "stream: "+s.String(), func() program {
			var v, ends int
			var ok, ok2 bool
			return program{
				body: func() {
					done, slice := make(chan struct{}), make(chan int, s.cap)
					out := digits().Reduce(done, slice)
					vsched.Go(func() { s.feed(done, slice, 1) })
					v, ok = vsched.Recv2(out)
					ends, ok2 = vsched.Recv2(out)
				},
				check: func() string {
					if !ok || v != s.want(1) {
						return fmt.Sprintf("received %d (%v), want %d", v, ok, s.want(1))
					}
					if ok2 {
						return fmt.Sprintf("a second result %d", ends)
					}
					return ""
				},
			}
		})
	}
	r.Group("late receiver", "the sender's goroutine receives the result itself, after signalling completion; buffered completion signal")
	for _, s := range streams(r) {
		if s.signalClose {
			continue
		}
		explore(r, "late: "+s.String(), func() program {
			var v int
			var ok, ok2 bool
			return program{
				body: func() {
					done, slice := make(chan struct{}, 1), make(chan int, s.cap)
					out := digits().Reduce(done, slice)
					s.feed(done, slice, 1)
					v, ok = vsched.Recv2(out)
					_, ok2 = vsched.Recv2(out)
				},
				check: func() string {
					if !ok || v != s.want(1) || ok2 {
						return fmt.Sprintf("received %d (%v, more %v), want %d", v, ok, ok2, s.want(1))
					}
					return ""
				},
			}
		})
	}
	r.Group("long streams", "9 to 130 values (thorough 1030), unbuffered or with a buffer up to the whole stream, under every schedule that deviates from the default order at most once (to 34 values: twice)")
	long := []int{9, 15, 16, 17, 18, 31, 33, 34, 63, 65, 66, 129, 130}
	if r.Thorough {
		long = append(long, 255, 257, 258, 513, 1030)
	}
	for _, k := range long {
		for _, c := range []int{0, 1, 16, k} {
			for cl := 0; cl < 2; cl++ {
				s := stream{k, c, c == 1, cl}
				explore(r, "long: "+s.String(), func() program {
					var v int
					var ok, ok2 bool
					opt := vsched.Options{Delay: true, Bounds: []int{0, 1}}
					if k <= 34 {
						opt.Bounds = []int{0, 1, 2}
					}
					return program{opt: opt,
						body: func() {
							done, slice := make(chan struct{}), make(chan int, s.cap)
							out := digits().Reduce(done, slice)
							vsched.Go(func() { s.feed(done, slice, 1) })
							v, ok = vsched.Recv2(out)
							_, ok2 = vsched.Recv2(out)
						},
						check: func() string {
							if !ok || v != s.want(1) || ok2 {
								return fmt.Sprintf("received %d (%v, more %v), want %d", v, ok, ok2, s.want(1))
							}
							return ""
						},
					}
				})
			}
		}
	}
	r.Group("all sent before", "0 to 1030 values (thorough 4100) in the buffer and completion signalled, by a value or by closing, before the reduction starts; the reducer notices completion after any number of them")
	many := []int{0, 1, 2, 3, 31, 32, 33, 64, 65, 127, 129, 200, 255, 257, 300, 513, 1030}
	if r.Thorough {
		many = append(many, 2050, 4100)
	}
	for _, k := range many {
		for cl := 0; cl < 2; cl++ {
			for _, sc := range []bool{false, true} {
				s := stream{k, k, sc, cl}
				explore(r, "before: "+s.String(), func() program {
					var v int
					var ok, ok2 bool
					return program{opt: vsched.Options{Delay: true, Bounds: []int{0, 1}},
						body: func() {
							done, slice := make(chan struct{}, 1), make(chan int, s.cap)
							s.feed(done, slice, 1)
							out := digits().Reduce(done, slice)
							v, ok = vsched.Recv2(out)
							_, ok2 = vsched.Recv2(out)
						},
						check: func() string {
							if !ok || v != s.want(1) || ok2 {
								return fmt.Sprintf("received %d (%v, more %v), want %d", v, ok, ok2, s.want(1))
							}
							return ""
						},
					}
				})
			}
		}
	}
	r.Group("two senders", "two goroutines send, completion is signalled when both are done: the result folds an interleaving of the two")
	for k1 := 0; k1 <= 3; k1++ {
		for k2 := 1; k2 <= 3; k2++ {
			for c := 0; c <= 2; c++ {
				explore(r, fmt.Sprintf("two senders: %d and %d values, buffer %d", k1, k2, c), func() program {
					var v int
					return program{
						body: func() {
							done, slice := make(chan struct{}), make(chan int, c)
							out := digits().Reduce(done, slice)
							vsched.Go(func() {
								join(func() {
									for i := 0; i < k1; i++ {
										vsched.SendTo(slice)(1 + i)
									}
								}, func() {
									for i := 0; i < k2; i++ {
										vsched.SendTo(slice)(5 + i)
									}
								})
								vsched.Close(done)
							})
							v = vsched.Recv(out)
						},
						check: func() string {
							for _, w := range merges(k1, k2) {
								if fold(w...) == v {
									return ""
								}
							}
							return fmt.Sprintf("received %d, which folds no interleaving of the values sent", v)
						},
					}
				})
			}
		}
	}
	r.Group("two reductions of one monoid", "two streams reduced at the same time by the same monoid do not mix")
	for k1 := 0; k1 <= 2; k1++ {
		for k2 := 0; k2 <= 2; k2++ {
			for c := 0; c <= 1; c++ {
				a, b := stream{k1, c, false, 1}, stream{k2, c, true, 0}
				explore(r, fmt.Sprintf("two reductions: %v; %v", a, b), func() program {
					var v, w int
					return program{
						body: func() {
							m := digits()
							join(func() {
								done, slice := make(chan struct{}), make(chan int, a.cap)
								out := m.Reduce(done, slice)
								vsched.Go(func() { a.feed(done, slice, 1) })
								v = vsched.Recv(out)
							}, func() {
								done, slice := make(chan struct{}), make(chan int, b.cap)
								out := m.Reduce(done, slice)
								vsched.Go(func() { b.feed(done, slice, 5) })
								w = vsched.Recv(out)
							})
						},
						check: func() string {
							if v != a.want(1) || w != b.want(5) {
								return fmt.Sprintf("received %d and %d, want %d and %d", v, w, a.want(1), b.want(5))
							}
							return ""
						},
					}
				})
			}
		}
	}
	r.Group("one after the other", "the same monoid reduces a second stream afterwards, from its identity again")
	for k := 0; k <= 3; k++ {
		a := stream{k, 1, true, 0}
		explore(r, fmt.Sprintf("again: %v", a), func() program {
			var v, w, z int
			return program{
				body: func() {
					m := digits()
					for i := 0; i < 2; i++ {
						done, slice := make(chan struct{}), make(chan int, a.cap)
						out := m.Reduce(done, slice)
						vsched.Go(func() { a.feed(done, slice, 1) })
						v, w = w, vsched.Recv(out)
					}
					z = m.Zero()
				},
				check: func() string {
					if v != a.want(1) || w != a.want(1) || z != 7 {
						return fmt.Sprintf("received %d then %d (identity %d), want %d twice", v, w, z, a.want(1))
					}
					return ""
				},
			}
		})
	}
}

// merges are the interleavings of 1,2,.. (a values) and 5,6,.. (b values).
func merges(a, b int) [][]int {
	var out [][]int
	var rec func(i, j int, cur []int)
	rec = func(i, j int, cur []int) {
		if i == a && j == b {
			out = append(out, append([]int(nil), cur...))
			return
		}
		if i < a {
			rec(i+1, j, append(cur[:len(cur):len(cur)], 1+i))
		}
		if j < b {
			rec(i, j+1, append(cur[:len(cur):len(cur)], 5+j))
		}
	}
	rec(0, 0, nil)
	return out
}

// ---- P17 ---------------------------------------------------------------------

func p17(r *rep.R) {
	r.Group("reductions", "reductions to a scalar of small matrices and vectors in every format, with and without masks, alone and two at a time on the same matrix and monoid, under every schedule")
	for _, f := range formats {
		for code := 0; code < f.contents(); code++ {
			for _, k := range f.masks() {
				for _, n := range []int{1, 2} {
					if n == 2 && !r.Thorough && code%3 != 1 {
						continue
					}
					for mono := 0; mono < 2; mono++ {
						explore(r, fmt.Sprintf("reduce %v content %d mask %v x%d monoid %d", f, code, k, n, mono), func() program {
							cells := f.cells(code)
							m := []binaryop.MonoID[float64]{binaryop.NewMonoID(0, binaryop.Addition[float64]()), binaryop.NewMonoID(-5, binaryop.Maximum[float64]())}[mono]
							want := []float64{0, -5}[mono]
							for i, v := range cells {
								if !k.on(i) && v != 0 {
									if mono == 0 {
										want += v
									} else {
										want = max(want, v)
									}
								}
							}
							if mono == 1 && f.dense {
								// a dense format also enumerates its zeros
								for i, v := range cells {
									if v == 0 && !k.on(i) {
										want = max(want, 0)
									}
								}
							}
							got := make([]float64, n)
							return program{
								body: func() {
									x := f.make(code)
									one := func(i int) func() {
										return func() {
											got[i] = gb.ReduceMatrixToScalarWithMonoID[float64](context.Background(), x, m, k.mask(f))
										}
									}
									if n == 1 {
										one(0)()
									} else {
										join(one(0), one(1))
									}
								},
								check: func() string {
									for _, g := range got {
										if g != want {
											return fmt.Sprintf("reduced to %v, want %v", got, want)
										}
									}
									return ""
								},
							}
						})
					}
				}
			}
		}
	}
	r.Group("reductions to a vector", "per column, in every format")
	for _, f := range formats {
		for code := 0; code < f.contents(); code += 2 {
			explore(r, fmt.Sprintf("reduce %v content %d to a vector", f, code), func() program {
				cells := f.cells(code)
				want := make([]float64, f.c)
				for i, v := range cells {
					want[i%f.c] += v
				}
				var got []float64
				return program{
					body: func() {
						x := f.make(code)
						v := gb.ReduceMatrixToVectorWithMonoID[float64](context.Background(), x, gb.DefaultMonoIDAddition[float64](), nil)
						got = nil
						for i := 0; i < v.Length(); i++ {
							got = append(got, v.AtVec(i))
						}
					},
					check: func() string {
						if fmt.Sprint(got) != fmt.Sprint(want) {
							return fmt.Sprintf("reduced to %v, want %v", got, want)
						}
						return ""
					},
				}
			})
		}
	}
}

// ---- P20 ---------------------------------------------------------------------

// modelCtx is a context whose Done channel takes part in the exploration.
type modelCtx struct{ done chan struct{} }

func newCtx() *modelCtx                         { return &modelCtx{make(chan struct{})} }
func (c *modelCtx) cancel()                     { vsched.Close(c.done) }
func (c *modelCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *modelCtx) Done() <-chan struct{}       { return c.done }
func (c *modelCtx) Value(any) any               { return nil }
func (c *modelCtx) Err() error {
	if i := vsched.Select(true, vsched.RecvCase((<-chan struct{})(c.done))); i == 0 {
		return context.Canceled
	}
	return nil
}

func p20(r *rep.R) {
	r.Group("a canceller in another goroutine", "reductions, products, sums and Strassen multiplication against a goroutine that cancels the context at any moment, under every schedule")
	type job struct {
		name string
		opt  vsched.Options
		run  func(ctx context.Context, f format, code int) string
	}
	full := vsched.Options{}
	jobs := []job{
		{"reduce to scalar", full, func(ctx context.Context, f format, code int) string {
			x := f.make(code)
			gb.ReduceMatrixToScalarWithMonoID[float64](ctx, x, gb.DefaultMonoIDAddition[float64](), nil)
			return f.same(x, code)
		}},
		{"masked reduce to scalar", full, func(ctx context.Context, f format, code int) string {
			x := f.make(code)
			gb.ReduceMatrixToScalarWithMonoID[float64](ctx, x, gb.DefaultMonoIDMaximum[float64](), f.masks()[1].mask(f))
			return f.same(x, code)
		}},
		{"reduce to vector", full, func(ctx context.Context, f format, code int) string {
			x := f.make(code)
			v := gb.ReduceMatrixToVector[float64](ctx, x)
			if v == nil || v.Length() != f.c {
				return "the result has the wrong length"
			}
			return f.same(x, code)
		}},
		{"add", full, func(ctx context.Context, f format, code int) string {
			x, y, out := f.make(code), f.make(f.contents()-1-code), f.empty()
			gb.Add[float64](ctx, x, y, nil, out)
			a, b := f.cells(code), f.cells(f.contents()-1-code)
			for i := range a {
				if g := out.At(i/f.c, i%f.c); g != 0 && g != a[i]+b[i] {
					return fmt.Sprintf("cell %d of the output is %v, neither its old nor its final value", i, g)
				}
			}
			return f.same(x, code)
		}},
		{"multiply", full, func(ctx context.Context, f format, code int) string {
			if f.r != f.c {
				return ""
			}
			x, out := f.make(code), f.make(1)
			gb.MatrixMatrixMultiply[float64](ctx, x, x, nil, out)
			a, p := f.cells(code), f.cells(1)
			for i := range a {
				w := 0.0
				for l := 0; l < f.c; l++ {
					w += a[i/f.c*f.c+l] * a[l*f.c+i%f.c]
				}
				if g := out.At(i/f.c, i%f.c); g != p[i] && g != w {
					return fmt.Sprintf("cell %d of the output is %v, neither its old nor its final value", i, g)
				}
			}
			return f.same(x, code)
		}},
		{"negative in place", full, func(ctx context.Context, f format, code int) string {
			x := f.make(code)
			gb.Negative[float64](ctx, x, nil, x)
			for i, v := range f.cells(code) {
				if g := x.At(i/f.c, i%f.c); g != v && g != -v {
					return fmt.Sprintf("cell %d of the output is %v, neither its old nor its final value", i, g)
				}
			}
			return ""
		}},
	}
	for _, f := range formats {
		for _, j := range jobs {
			for code := 0; code < f.contents(); code++ {
				if !r.Thorough && code%3 == 2 {
					continue
				}
				explore(r, fmt.Sprintf("%s, %v content %d", j.name, f, code), func() program {
					var msg string
					return program{opt: j.opt, body: func() {
						ctx := newCtx()
						msg = ""
						vsched.Go(ctx.cancel)
						msg = j.run(ctx, f, code)
					}, check: func() string { return msg }}
				})
			}
		}
	}
	r.Group("Strassen with a canceller", "2x2 with crossover 1, schedules up to the bounds listed in notes")
	for _, f := range formats {
		if f.r != 2 || f.c != 2 {
			continue
		}
		explore(r, fmt.Sprintf("Strassen %v", f), func() program {
			var msg string
			opt := vsched.Options{Delay: true, Bounds: []int{0, 1, 2}, MaxExec: 40000}
			if r.Thorough {
				opt = vsched.Options{Delay: true, Bounds: []int{0, 1, 2, 3, 4}}
			}
			return program{opt: opt, body: func() {
				ctx := newCtx()
				x := f.make(f.contents() - 1)
				vsched.Go(ctx.cancel)
				m := strassen.MultiplyCrossoverPoint[float64](ctx, x, x, 1)
				msg = f.same(x, f.contents()-1)
				if m == nil {
					msg = "no result"
				}
			}, check: func() string { return msg }}
		})
	}
}

// ---- P24 ---------------------------------------------------------------------

func p24(r *rep.R) {
	r.Group("Strassen 2x2, every schedule", "2x2 operands with crossover 1: seven concurrent sub-products finishing in every order")
	prod := func(a, b []float64, n int) []float64 {
		out := make([]float64, n*n)
		for i := range out {
			for l := 0; l < n; l++ {
				out[i] += a[i/n*n+l] * b[l*n+i%n]
			}
		}
		return out
	}
	diff := func(m gb.Matrix[float64], want []float64, n int) string {
		if m.Rows() != n || m.Columns() != n {
			return fmt.Sprintf("the result is %dx%d", m.Rows(), m.Columns())
		}
		for i, w := range want {
			if g := m.At(i/n, i%n); g != w {
				return fmt.Sprintf("cell %d is %v, want %v", i, g, w)
			}
		}
		return ""
	}
	for i, f := range formats {
		if f.r != 2 || f.c != 2 {
			continue
		}
		f2 := formats[(i+1)%3]
		explore(r, fmt.Sprintf("Strassen %v by %v", f, f2), func() program {
			a, b := []float64{1, 2, 3, 5}, []float64{7, -2, 4, 1}
			want := prod(a, b, 2)
			var got gb.Matrix[float64]
			return program{opt: vsched.Options{Bounds: []int{0, -1}}, body: func() {
				x, y := f.of(a), f2.of(b)
				got = strassen.MultiplyCrossoverPoint[float64](context.Background(), x, y, 1)
			}, check: func() string { return diff(got, want, 2) }}
		})
	}
	r.Group("Strassen 4x4, nested", "4x4 operands with crossover 1 and 2 (7 or 56 goroutines), schedules that deviate from the default order up to a bound")
	for i, f := range formats {
		if f.r != 2 || f.c != 2 {
			continue
		}
		for _, cross := range []int{1, 2} {
			explore(r, fmt.Sprintf("Strassen 4x4 %v crossover %d", f, cross), func() program {
				a, b := make([]float64, 16), make([]float64, 16)
				for k := range a {
					a[k] = float64(k*k%7) - 2
					b[k] = float64(k*5%9+i) - 3
				}
				want := prod(a, b, 4)
				var got gb.Matrix[float64]
				opt := vsched.Options{Delay: true, Bounds: []int{0, 1}, MaxExec: 4000}
				if r.Thorough {
					opt = vsched.Options{Delay: true, Bounds: []int{0, 1, 2}}
				}
				return program{opt: opt, body: func() {
					g := f
					g.r, g.c = 4, 4
					x, y := g.of(a), g.of(b)
					got = strassen.MultiplyCrossoverPoint[float64](context.Background(), x, y, cross)
				}, check: func() string { return diff(got, want, 4) }}
			})
		}
	}
	r.Group("two Strassen products at once", "two goroutines multiply the same 2x2 operands, deviations up to a bound")
	for _, f := range formats {
		if f.r != 2 || f.c != 2 {
			continue
		}
		explore(r, fmt.Sprintf("two Strassen %v", f), func() program {
			a, b := []float64{1, 2, 3, 5}, []float64{7, -2, 4, 1}
			want := prod(a, b, 2)
			got := make([]gb.Matrix[float64], 2)
			opt := vsched.Options{Delay: true, Bounds: []int{0, 1, 2}, MaxExec: 20000}
			return program{opt: opt, body: func() {
				x, y := f.of(a), f.of(b)
				join(func() { got[0] = strassen.MultiplyCrossoverPoint[float64](context.Background(), x, y, 1) },
					func() { got[1] = strassen.MultiplyCrossoverPoint[float64](context.Background(), x, y, 1) })
			}, check: func() string {
				if d := diff(got[0], want, 2); d != "" {
					return d
				}
				return diff(got[1], want, 2)
			}}
		})
	}
}
