package main

import (
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"strings"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"verif.local/mc/model"
	"verif.local/mc/rep"
)

// ---- P01: cell store -------------------------------------------------------

// cellOps are all single-cell operations with values from vals at every cell.
func cellOps[T constraints.Type](m0 Mat[T], vals []T, ptr bool) []op[gb.MatrixLogical[T], Mat[T]] {
	type O = op[gb.MatrixLogical[T], Mat[T]]
	var out []O
	for i := 0; i < m0.R; i++ {
		for j := 0; j < m0.C; j++ {
			i, j := i, j
			for _, v := range vals {
				v := v
				out = append(out, O{fmt.Sprintf("Set(%d,%d,%v)", i, j, v), func(x gb.MatrixLogical[T], m *Mat[T]) error {
					x.Set(i, j, v)
					m.Set(i, j, v)
					return nil
				}})
				out = append(out, O{fmt.Sprintf("Update(%d,%d,->%v)", i, j, v), func(x gb.MatrixLogical[T], m *Mat[T]) error {
					return rmw(x, func(f func(T) T) { x.Update(i, j, f) }, m, i, j, v)
				}})
			}
			out = append(out, O{fmt.Sprintf("Update(%d,%d,same)", i, j), func(x gb.MatrixLogical[T], m *Mat[T]) error {
				return rmw(x, func(f func(T) T) { x.Update(i, j, f) }, m, i, j, m.At(i, j))
			}})
		}
	}
	out = append(out, O{"Clear", func(x gb.MatrixLogical[T], m *Mat[T]) error {
		x.Clear()
		*m = model.New[T](m.R, m.C)
		return nil
	}})
	return out
}

func ptrOps[T constraints.Number](m0 Mat[T], vals []T) []op[gb.MatrixLogical[T], Mat[T]] {
	type O = op[gb.MatrixLogical[T], Mat[T]]
	var out []O
	for i := 0; i < m0.R; i++ {
		for j := 0; j < m0.C; j++ {
			i, j := i, j
			for _, v := range vals {
				v := v
				out = append(out, O{fmt.Sprintf("SetReturnPointer(%d,%d,%v)", i, j, v), func(x gb.MatrixLogical[T], m *Mat[T]) error {
					x.(gb.MatrixCompressed[T]).SetReturnPointer(i, j, v)
					m.Set(i, j, v)
					return nil
				}})
				out = append(out, O{fmt.Sprintf("UpdateReturnPointer(%d,%d,->%v)", i, j, v), func(x gb.MatrixLogical[T], m *Mat[T]) error {
					return rmw(x, func(f func(T) T) { x.(gb.MatrixCompressed[T]).UpdateReturnPointer(i, j, f) }, m, i, j, v)
				}})
			}
		}
	}
	return out
}

// rmw does a read-modify-write whose function panics, and one which returns v; it reads x meanwhile,
// unless x is nil.
func rmw[T constraints.Type](x gb.MatrixLogical[T], upd func(func(T) T), m *Mat[T], i, j int, v T) error {
	n := 0
	var got T
	var within error
	f := func(o T) T {
		n++
		got = o
		if x != nil {
			within = expect(x, *m, fmt.Sprintf("while (%d,%d) is updated", i, j))
		}
		return v
	}
	if x != nil {
		threw := true
		func() {
			defer func() { _ = recover() }()
			upd(func(o T) T { f(o); panic("the caller's own") })
			threw = false
		}()
		if within != nil {
			return within
		}
		if !threw || n != 1 {
			return rep.Errf("the panic of an update function was swallowed, or it was called %d times", n)
		}
		if err := expect(x, *m, fmt.Sprintf("after an update of (%d,%d) panicked", i, j)); err != nil {
			return err
		}
		n = 0
	}
	upd(f)
	if n != 1 {
		return rep.Errf("update function called %d times", n)
	}
	if within != nil {
		return within
	}
	if !model.Same(got, m.At(i, j)) {
		return rep.Errf("update function got %v, cell holds %v", got, m.At(i, j))
	}
	m.Set(i, j, v)
	return nil
}

func readCheck[T constraints.Type](x gb.MatrixLogical[T], m Mat[T]) error {
	if err := expect(x, m, "content"); err != nil {
		return err
	}
	return zeroSigns(x, m)
}

// negative reports whether v is a zero with the sign bit.
func negative[T constraints.Type](v T) bool {
	switch v := any(v).(type) {
	case float64:
		return v == 0 && math.Signbit(v)
	case float32:
		return v == 0 && math.Signbit(float64(v))
	}
	return false
}

// zeroSigns: a dense object stores zeros too, so it gives back the one that was written (a sparse
// one stores neither and reads as plain zero).
func zeroSigns[T constraints.Type](x gb.MatrixLogical[T], m Mat[T]) error {
	var z T
	switch any(z).(type) {
	case float64, float32:
	default:
		return nil
	}
	if t := reflect.TypeOf(x).String(); !strings.HasPrefix(t, "*graphblas.Dense") {
		return nil
	}
	for i, v := range m.D {
		if g := x.At(i/m.C, i%m.C); negative(g) != negative(v) {
			return rep.Errf("At(%d,%d) = %v, want %v; the zero has lost its sign", i/m.C, i%m.C, g, v)
		}
	}
	return nil
}

func matGraph[T constraints.Type](r *rep.R, mkx func() gb.MatrixLogical[T], rows, cols int, ops func(Mat[T]) []op[gb.MatrixLogical[T], Mat[T]], check func(gb.MatrixLogical[T], Mat[T]) error, maxStates int) error {
	return graph(r, func() (gb.MatrixLogical[T], Mat[T]) { return mkx(), model.New[T](rows, cols) },
		func(m Mat[T]) Mat[T] { return m.Clone() }, func(m Mat[T]) string { return m.String() }, ops, check, maxStates)
}

func (t tc[T]) P01(r *rep.R) {
	t.between(r, "cells")
	t.apart(r, "cells")
	t.nestedUpdate(r)
	type sp struct {
		r, c int
		vals []T
	}
	v3 := []T{0, 1, t.wide()}
	specs := []sp{{2, 2, v3}}
	if t.deep {
		specs = []sp{{2, 2, []T{0, 1, t.neg1(), t.wide()}}, {2, 3, v3}, {3, 2, v3}, {1, 4, v3}, {4, 1, v3}, {3, 3, []T{0, 1}}, {1, 7, []T{0, 1}}, {7, 1, []T{0, 1}}}
		if r.Thorough {
			specs = append(specs, sp{3, 3, v3}, sp{2, 5, []T{0, 1}}, sp{5, 2, []T{0, 1}}, sp{1, 10, []T{0, 1}}, sp{10, 1, []T{0, 1}}, sp{3, 4, []T{0, 1}}, sp{4, 3, []T{0, 1}})
		}
	}
	if v := t.special(); v != nil {
		specs = append(specs, sp{2, 2, v}, sp{1, 2, append(v, t.tiny(), 1)})
	}
	r.Group("state graph", "all reachable concrete states of one matrix under Set, Update, SetReturnPointer, UpdateReturnPointer, Clear at every cell; shapes up to 3x3 (quick), 3x4 (thorough); per type and format")
	for _, s := range specs {
		for _, f := range matFL {
			s, f := s, f
			r.Case(func() string { return fmt.Sprintf("graph %s %v %dx%d values %v", t.name, f, s.r, s.c, s.vals) }, func() error {
				return matGraph(r, func() gb.MatrixLogical[T] { return emptyL[T](f, s.r, s.c) }, s.r, s.c, func(m Mat[T]) []op[gb.MatrixLogical[T], Mat[T]] {
					o := cellOps(m, s.vals, false)
					if f == fCSR || f == fCSC {
						o = append(o, ptrOps(m, s.vals)...)
					}
					return o
				}, readCheck[T], 60000)
			})
		}
	}

	r.Group("histories", "every operation sequence to the depth over 2x2 without state merging")
	depth := 3
	if t.deep {
		depth = 4
		if r.Thorough {
			depth = 5
		}
	}
	base := model.New[T](2, 2)
	for _, f := range matFL {
		f := f
		ops := append([]op[gb.MatrixLogical[T], Mat[T]]{}, cellOps(base, []T{0, 1}, false)...)
		// keep Set and Clear and the identity update only
		var keep []op[gb.MatrixLogical[T], Mat[T]]
		for _, o := range ops {
			if o.name[0] == 'S' || o.name[0] == 'C' {
				keep = append(keep, o)
			}
		}
		for i := range keep {
			i := i
			r.Case(func() string { return fmt.Sprintf("tree %s %v first %s depth %d", t.name, f, keep[i].name, depth) }, func() error {
				seq := []int{i}
				var walk func() error
				walk = func() error {
					x := emptyL[T](f, 2, 2)
					m := model.New[T](2, 2)
					for _, k := range seq {
						if err := keep[k].do(x, &m); err != nil {
							return err
						}
					}
					r.Step(1)
					if err := expect(x, m, "content"); err != nil {
						var n []string
						for _, k := range seq {
							n = append(n, keep[k].name)
						}
						return rep.Errf("after %v: %v", n, err)
					}
					if len(seq) == depth {
						return nil
					}
					for k := range keep {
						seq = append(seq, k)
						if err := walk(); err != nil {
							return err
						}
						seq = seq[:len(seq)-1]
					}
					return nil
				}
				return walk()
			})
		}
	}

	r.Group("large", "one line of n cells, and n x n, filled and emptied in every pair of structured orders, all cells read after every write (n<=17) or every 8th")
	ns := []int{5, 8, 9, 16, 17, 33}
	if t.deep {
		ns = append(ns, 64, 65, 129, 300)
	}
	for _, n := range ns {
		if n > 17 && !t.deep && !r.Thorough {
			continue
		}
		for _, f := range matF {
			for shape := 0; shape < 3; shape++ {
				if n >= 300 && shape == 2 {
					continue
				}
				for _, on := range orderNames {
					n, f, shape, on := n, f, shape, on
					r.Case(func() string { return fmt.Sprintf("fill %s %v n=%d layout %d fill %s", t.name, f, n, shape, on) }, func() error {
						rows, cols := 3, n
						if shape == 1 {
							rows, cols = n, 3
						}
						if shape == 2 {
							rows, cols = n, n
						}
						at := func(k int) (int, int) {
							switch shape {
							case 0:
								return 1, k
							case 1:
								return k, 1
							}
							return k, (k*3 + 1) % n
						}
						os := orders(n)
						for _, off := range orderNames {
							x := emptyL[T](f, rows, cols)
							m := model.New[T](rows, cols)
							if shape < 2 {
								// a neighbour before and after the line
								x.Set(0, 0, 5)
								m.Set(0, 0, 5)
								x.Set(rows-1, cols-1, 6)
								m.Set(rows-1, cols-1, 6)
							}
							every := 1
							if n > 17 || shape == 2 {
								every = n / 3
							}
							cnt := 0
							step := func(what string, k int, v T) error {
								i, j := at(k)
								x.Set(i, j, v)
								m.Set(i, j, v)
								r.Step(1)
								cnt++
								if g := x.At(i, j); !model.Same(g, v) {
									return rep.Errf("%s: cell (%d,%d) reads %v after writing %v", what, i, j, g, v)
								}
								if cnt%every == 0 {
									return expect(x, m, what)
								}
								return nil
							}
							for q, k := range os[on] {
								if err := step("fill", k, T(1+q%100)); err != nil {
									return err
								}
							}
							if err := expect(x, m, "filled"); err != nil {
								return err
							}
							for q, k := range os[off] {
								if q%4 == 3 {
									continue // some survive
								}
								if err := step("empty "+off, k, 0); err != nil {
									return err
								}
							}
							if err := expect(x, m, "emptied "+off); err != nil {
								return err
							}
							for q, k := range os[on] {
								if err := step("refill", k, T(1+q%50)); err != nil {
									return err
								}
							}
							if err := expect(x, m, "refilled after "+off); err != nil {
								return err
							}
						}
						return nil
					})
				}
			}
		}
	}

	if t.name == "float64" || r.Thorough && t.deep {
		n, top := 70, 0
		if r.Thorough {
			n, top = 100, 4000
		}
		r.Group("full", fmt.Sprintf("all cells of an %dx%d matrix (thousands of stored elements) written in every structured order, by rows and by columns, half of them emptied in every structured order and written again", n, n))
		for _, f := range matF {
			for _, on := range orderNames {
				for by := 0; by < 2; by++ {
					f, on, by := f, on, by
					r.Case(func() string { return fmt.Sprintf("full %s %v %s by %d", t.name, f, on, by) }, func() error {
						x := emptyL[T](f, n, n)
						m := model.New[T](n, n)
						set := func(k int, v T) {
							i, j := k/n, k%n
							if by == 1 {
								i, j = j, i
							}
							x.Set(i, j, v)
							m.Set(i, j, v)
							r.Step(1)
						}
						os := orders(n * n)
						for q, k := range os[on] {
							set(k, T(1+q%120))
						}
						if err := expect(x, m, "filled"); err != nil {
							return err
						}
						for oi, off := range orderNames {
							if oi%3 != by && top == 0 && off != on {
								continue
							}
							for q, k := range os[off] {
								if q%2 == 0 {
									set(k, 0)
								}
							}
							if err := expect(x, m, "half emptied "+off); err != nil {
								return err
							}
							for q, k := range os[off] {
								if q%2 == 0 {
									set(k, T(1+q%110))
								}
							}
							if err := expect(x, m, "filled again "+off); err != nil {
								return err
							}
						}
						x.Clear()
						return expect(x, model.New[T](n, n), "cleared")
					})
				}
			}
		}
	}

	if t.deep {
		r.Group("permutations", "every insertion order followed by every removal order of one line's cells")
		n := 5
		if r.Thorough {
			n = 6
		}
		ps := perms(n)
		for _, f := range matF {
			for shape := 0; shape < 2; shape++ {
				for pi := range ps {
					f, shape, pi := f, shape, pi
					r.Case(func() string { return fmt.Sprintf("perm %s %v layout %d insert %v", t.name, f, shape, ps[pi]) }, func() error {
						for _, q := range ps {
							rows, cols := 2, n
							if shape == 1 {
								rows, cols = n, 2
							}
							x := emptyL[T](f, rows, cols)
							m := model.New[T](rows, cols)
							set := func(k int, v T) {
								if shape == 0 {
									x.Set(1, k, v)
									m.Set(1, k, v)
								} else {
									x.Set(k, 1, v)
									m.Set(k, 1, v)
								}
								r.Step(1)
							}
							for a, k := range ps[pi] {
								set(k, T(a+1))
							}
							if err := expect(x, m, "inserted"); err != nil {
								return err
							}
							for a, k := range q {
								set(k, 0)
								if a < n-1 {
									if err := expect(x, m, fmt.Sprint("removing ", q)); err != nil {
										return err
									}
								}
							}
						}
						return nil
					})
				}
			}
		}
	}
}

func p01bool(r *rep.R) {
	r.Group("state graph", "")
	for _, s := range shapes(1, 3) {
		s := s
		r.Case(func() string { return fmt.Sprintf("graph bool Dense %dx%d", s[0], s[1]) }, func() error {
			return matGraph(r, func() gb.MatrixLogical[bool] { return gb.NewDenseMatrix[bool](s[0], s[1]) }, s[0], s[1], func(m Mat[bool]) []op[gb.MatrixLogical[bool], Mat[bool]] {
				return cellOps(m, []bool{false, true}, false)
			}, readCheck[bool], 60000)
		})
	}
}

// ---- P02: vectors ----------------------------------------------------------

type resizer interface{ ReSize(int) int }

func vecOps[T constraints.Type](m0 Mat[T], vals []T, resize int) []op[gb.VectorLogial[T], Mat[T]] {
	type O = op[gb.VectorLogial[T], Mat[T]]
	var out []O
	for i := 0; i < m0.R; i++ {
		i := i
		for _, v := range vals {
			v := v
			out = append(out,
				O{fmt.Sprintf("SetVec(%d,%v)", i, v), func(x gb.VectorLogial[T], m *Mat[T]) error { x.SetVec(i, v); m.D[i] = v; return nil }},
				O{fmt.Sprintf("Set(%d,0,%v)", i, v), func(x gb.VectorLogial[T], m *Mat[T]) error { x.Set(i, 0, v); m.D[i] = v; return nil }},
				O{fmt.Sprintf("Update(%d,0,->%v)", i, v), func(x gb.VectorLogial[T], m *Mat[T]) error {
					return rmw(x, func(f func(T) T) { x.Update(i, 0, f) }, m, i, 0, v)
				}})
		}
	}
	out = append(out, O{"Clear", func(x gb.VectorLogial[T], m *Mat[T]) error {
		x.Clear()
		*m = model.New[T](m.R, 1)
		return nil
	}})
	for n := 0; n < resize; n++ {
		n := n
		out = append(out, O{fmt.Sprintf("ReSize(%d)", n), func(x gb.VectorLogial[T], m *Mat[T]) error {
			got := x.(resizer).ReSize(n)
			o := model.New[T](n, 1)
			copy(o.D, m.D)
			*m = o
			if got != n || x.Length() != n {
				return rep.Errf("ReSize(%d) returned %d, Length() = %d", n, got, x.Length())
			}
			return nil
		}})
	}
	return out
}

func vecCheck[T constraints.Type](x gb.VectorLogial[T], m Mat[T]) error {
	if x.Length() != m.R || x.Rows() != m.R || x.Columns() != 1 || x.Size() != m.R {
		return rep.Errf("length %d rows %d columns %d size %d, want %d", x.Length(), x.Rows(), x.Columns(), x.Size(), m.R)
	}
	for i := range m.D {
		if v := x.AtVec(i); !model.Same(v, m.D[i]) {
			return rep.Errf("AtVec(%d) = %v, want %v; want content %v", i, v, m.D[i], m)
		}
		if v := x.At(i, 0); !model.Same(v, m.D[i]) {
			return rep.Errf("At(%d,0) = %v, want %v; want content %v", i, v, m.D[i], m)
		}
	}
	return zeroSigns[T](x, m)
}

func vecGraph[T constraints.Type](r *rep.R, mkx func() gb.VectorLogial[T], n int, vals []T, resize, maxStates int, check func(gb.VectorLogial[T], Mat[T]) error) error {
	return graph(r, func() (gb.VectorLogial[T], Mat[T]) { return mkx(), model.New[T](n, 1) },
		func(m Mat[T]) Mat[T] { return m.Clone() }, func(m Mat[T]) string { return m.String() },
		func(m Mat[T]) []op[gb.VectorLogial[T], Mat[T]] { return vecOps(m, vals, resize) }, check, maxStates)
}

func (t tc[T]) P02(r *rep.R) {
	t.between(r, "cells")
	t.apart(r, "cells")
	v3 := []T{0, 1, t.wide()}
	r.Group("state graph", "all reachable concrete states of one vector under SetVec, Set, Update, Clear (and ReSize for dense ones) at every position; lengths up to 8 (quick), 10 (thorough)")
	type sp struct {
		n      int
		vals   []T
		resize int
	}
	specs := []sp{{4, v3, 0}, {3, v3, 5}}
	if t.deep {
		specs = []sp{{5, []T{0, 1, t.neg1(), t.wide()}, 0}, {8, []T{0, 1}, 0}, {3, v3, 5}, {2, []T{0, 1}, 7}}
		if r.Thorough {
			specs = append(specs, sp{6, []T{0, 1, t.neg1(), t.wide()}, 0}, sp{10, []T{0, 1}, 0}, sp{4, v3, 6})
		}
	}
	if v := t.special(); v != nil {
		specs = append(specs, sp{4, v, 0}, sp{2, append(v, t.tiny(), 1), 3})
	}
	for _, s := range specs {
		for _, f := range vecFL {
			s, f := s, f
			if s.resize > 0 && f == fSV {
				continue
			}
			r.Case(func() string {
				return fmt.Sprintf("graph %s %v n=%d values %v resize<%d", t.name, f, s.n, s.vals, s.resize)
			}, func() error {
				g := func() error {
					return vecGraph(r, func() gb.VectorLogial[T] { return emptyL[T](f, s.n, 1).(gb.VectorLogial[T]) }, s.n, s.vals, s.resize, 60000, vecCheck[T])
				}
				if s.resize > 0 {
					return withSpare(g)
				}
				return g()
			})
		}
	}

	r.Group("orders", "all write orders of n positions and, for longer vectors, every pair of structured fill and removal orders; all elements read after every write")
	n := 5
	if r.Thorough && t.deep {
		n = 6
	}
	for _, f := range vecFL {
		for _, p := range perms(n) {
			f, p := f, p
			r.Case(func() string { return fmt.Sprintf("perm %s %v %v", t.name, f, p) }, func() error {
				rm := perms(n)
				if !t.deep {
					rm = rm[:7]
				}
				for _, q := range rm {
					x := emptyL[T](f, n+3, 1).(gb.VectorLogial[T])
					m := model.New[T](n+3, 1)
					for a, k := range p {
						// spread positions out: 0,1,3,4,6,...
						x.SetVec(k+k/2, T(a+1))
						m.D[k+k/2] = T(a + 1)
						r.Step(1)
						if err := vecCheck(x, m); err != nil {
							return err
						}
					}
					for _, k := range q {
						x.SetVec(k+k/2, 0)
						m.D[k+k/2] = 0
						r.Step(1)
						if err := vecCheck(x, m); err != nil {
							return rep.Errf("removing %v: %v", q, err)
						}
					}
				}
				return nil
			})
		}
		ns := []int{9, 17, 33}
		if t.deep {
			ns = []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129, 300, 2100}
		}
		for _, n := range ns {
			for _, on := range orderNames {
				f, n, on := f, n, on
				r.Case(func() string { return fmt.Sprintf("fill %s %v n=%d %s", t.name, f, n, on) }, func() error {
					os := orders(n)
					for _, off := range orderNames {
						x := emptyL[T](f, n, 1).(gb.VectorLogial[T])
						m := model.New[T](n, 1)
						cnt := 0
						step := func(k int, v T) error {
							x.SetVec(k, v)
							m.D[k] = v
							r.Step(1)
							if cnt++; n >= 300 && cnt%(n/8) != 0 {
								return nil
							}
							return vecCheck(x, m)
						}
						for q, k := range os[on] {
							if q%3 == 2 && n > 9 {
								continue
							}
							if err := step(k, T(1+q%100)); err != nil {
								return err
							}
						}
						for q, k := range os[off] {
							if q%4 == 3 {
								continue
							}
							if err := step(k, 0); err != nil {
								return rep.Errf("removing %s: %v", off, err)
							}
						}
						for q, k := range os[on] {
							if err := step(k, T(1+q%50)); err != nil {
								return rep.Errf("refilling after %s: %v", off, err)
							}
						}
					}
					return nil
				})
			}
		}
	}

	r.Group("resize", "every pair and triple of lengths up to 9 (and around powers of two) on a full vector")
	top := 9
	ls := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	if t.deep {
		ls = append(ls, 15, 16, 17, 31, 32, 33, 64, 65)
		top = 65
	}
	_ = top
	for _, f := range []fm{fDV, fDVL} {
		for _, a := range ls {
			for _, b := range ls {
				f, a, b := f, a, b
				r.Case(func() string { return fmt.Sprintf("resize %s %v %d->%d", t.name, f, a, b) }, func() error {
					for _, c := range ls {
						m := model.New[T](a, 1)
						for i := range m.D {
							m.D[i] = T(i%100 + 1)
						}
						x := mkL[T](f, m, 1).(gb.VectorLogial[T])
						for _, n := range []int{b, c} {
							got := x.(resizer).ReSize(n)
							o := model.New[T](n, 1)
							copy(o.D, m.D)
							m = o
							r.Step(1)
							if got != n {
								return rep.Errf("ReSize(%d) returned %d", n, got)
							}
							if err := vecCheck(x, m); err != nil {
								return rep.Errf("lengths %d,%d,%d at %d: %v", a, b, c, n, err)
							}
							for i := range m.D {
								x.SetVec(i, T(i%90+5))
								m.D[i] = T(i%90 + 5)
							}
						}
					}
					return nil
				})
			}
		}
	}
}

func p02bool(r *rep.R) {
	r.Group("state graph", "")
	for n := 1; n <= 5; n++ {
		n := n
		r.Case(func() string { return fmt.Sprintf("graph bool DenseVector n=%d", n) }, func() error {
			return vecGraph(r, func() gb.VectorLogial[bool] { return gb.NewDenseVector[bool](n) }, n, []bool{false, true}, 7, 60000, vecCheck[bool])
		})
	}
}

// ---- P03: enumeration and counts -------------------------------------------

func mapOps[T constraints.Number](vals []T) []op[gb.MatrixLogical[T], Mat[T]] {
	type O = op[gb.MatrixLogical[T], Mat[T]]
	zeroEven := func(r, c int, v T) T {
		if (r+c)%2 == 0 {
			return 0
		}
		return v
	}
	mk := func(name string, f func(r, c int, v T) T) O {
		return O{name, func(x gb.MatrixLogical[T], m *Mat[T]) error {
			n := 0
			for it := x.(gb.Matrix[T]).Map(); it.HasNext(); {
				if n++; n > len(m.D)+1 {
					return rep.Errf("mapping does not end")
				}
				it.Map(f)
			}
			for i := range m.D {
				if m.D[i] != 0 {
					m.D[i] = f(i/m.C, i%m.C, m.D[i])
				}
			}
			return nil
		}}
	}
	return []O{mk("Map(zero where r+c even)", zeroEven), mk("Map(all to zero)", func(int, int, T) T { return 0 })}
}

// twoWalks tries every order of the steps of two walks over one object; kind 1: the second is an
// identity mapping, kind 2: both are.
func twoWalks[T tnum](r *rep.R, mkx func() gb.MatrixLogical[T], m Mat[T], sparse bool, kind int) error {
	n := len(m.D)
	if sparse {
		n = m.NNZ()
	}
	total := 2 * (n + 1)
	for sched := 0; sched < 1<<total; sched++ {
		if bits.OnesCount(uint(sched)) != n+1 {
			continue
		}
		x := mkx()
		var more [2]func() bool
		var step [2]func() (int, int, T)
		var got [2]int
		seen := [2]map[int]bool{{}, {}}
		for k := 0; k < total; k++ {
			w := sched >> k & 1
			if more[w] == nil {
				if kind == 2 || kind == 1 && w == 1 {
					it := x.(gb.Matrix[T]).Map()
					more[w], step[w] = it.HasNext, func() (a, b int, v T) {
						it.Map(func(r, c int, o T) T { a, b, v = r, c, o; return o })
						return
					}
				} else {
					it := x.Enumerate()
					more[w], step[w] = it.HasNext, it.Next
				}
			} else {
				i, j, v := step[w]()
				got[w]++
				if i < 0 || j < 0 || i >= m.R || j >= m.C || !model.Same(v, m.At(i, j)) || seen[w][i*m.C+j] {
					return rep.Errf("of two walks (kind %d, order %b) over %v, walk %d yields (%d,%d)=%v as its element %d", kind, sched, m, w, i, j, v, got[w])
				}
				seen[w][i*m.C+j] = true
			}
			r.Step(1)
			for q := range more {
				if more[q] != nil && more[q]() != (got[q] < n) {
					return rep.Errf("of two walks (kind %d, order %b) over %v, walk %d has yielded %d of %d and says HasNext = %v", kind, sched, m, q, got[q], n, got[q] >= n)
				}
			}
		}
	}
	return nil
}

func (t tc[T]) P03(r *rep.R) {
	t.between(r, "enumeration")
	t.apart(r, "enumeration")
	t.nestedWalk(r)
	v3 := []T{0, 1, t.wide()}
	r.Group("state graph", "enumeration and counts at every reachable concrete state of a matrix or vector under all writes, Clear and Map")
	type sp struct {
		r, c int
		vals []T
	}
	specs := []sp{{2, 2, v3}, {4, 1, []T{0, 1}}}
	if t.deep {
		specs = []sp{{2, 3, v3}, {3, 2, v3}, {3, 3, []T{0, 1}}, {1, 5, []T{0, t.neg1()}}, {5, 1, v3}, {8, 1, []T{0, 1}}}
		if r.Thorough {
			specs = append(specs, sp{3, 3, v3}, sp{4, 3, []T{0, 1}}, sp{3, 4, []T{0, 1}}, sp{10, 1, []T{0, 1}})
		}
	}
	if v := t.special(); v != nil {
		specs = append(specs, sp{2, 2, v}, sp{4, 1, v}, sp{2, 1, append(v, t.tiny(), 1)})
	}
	for _, s := range specs {
		for _, f := range fmtsL(s.c) {
			s, f := s, f
			r.Case(func() string { return fmt.Sprintf("graph %s %v %dx%d values %v", t.name, f, s.r, s.c, s.vals) }, func() error {
				return matGraph(r, func() gb.MatrixLogical[T] { return emptyL[T](f, s.r, s.c) }, s.r, s.c, func(m Mat[T]) []op[gb.MatrixLogical[T], Mat[T]] {
					o := cellOps(m, s.vals, false)
					if f != fDENL && f != fDVL {
						o = append(o, mapOps(s.vals)...)
					}
					return o
				}, func(x gb.MatrixLogical[T], m Mat[T]) error { return enumerated(x, m, f.sparse()) }, 60000)
			})
		}
	}

	r.Group("two enumerations", "two enumerations of one object (or an enumeration and an identity mapping), begun and advanced in every order, each asked for more after every step, before and after its end; every content of two values over 2x2, 3x1 and 1x3")
	for _, s := range [][2]int{{2, 2}, {3, 1}, {1, 3}} {
		for _, f := range fmtsL(s[1]) {
			for code := 0; code < 1<<(s[0]*s[1]); code++ {
				s, f, code := s, f, code
				r.Case(func() string { return fmt.Sprintf("two %s %v %v content %b", t.name, f, s, code) }, func() error {
					m := model.Decode(s[0], s[1], []T{0, 2}, code)
					for kind := 0; kind < 3; kind++ {
						if kind > 0 && (f == fDENL || f == fDVL) {
							continue
						}
						if err := twoWalks(r, func() gb.MatrixLogical[T] { return mkL[T](f, m, code%routes) }, m, f.sparse(), kind); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}

	r.Group("shapes and families", "degenerate shapes (zero rows or columns) and sizes to 65, every family of contents, every construction route; two interleaved enumerations")
	sh := [][2]int{{0, 0}, {0, 3}, {3, 0}, {1, 1}, {1, 4}, {4, 1}, {5, 7}, {9, 9}, {16, 5}, {17, 33}}
	if t.deep {
		sh = append(sh, [2]int{33, 17}, [2]int{64, 3}, [2]int{3, 65}, [2]int{65, 65}, [2]int{1, 129}, [2]int{129, 1})
	}
	sh = append(sh, t.long(true)...)
	for _, s := range sh {
		for _, f := range fmtsL(s[1]) {
			for k := 0; k < families; k++ {
				s, f, k := s, f, k
				if f.vector() && s[1] != 1 {
					continue
				}
				r.Case(func() string { return fmt.Sprintf("family %s %v %dx%d k=%d", t.name, f, s[0], s[1], k) }, func() error {
					m := family(s[0], s[1], k, t.neg1(), t.half())
					if len(m.D) == 0 {
						x := emptyL[T](f, s[0], s[1])
						return enumerated(x, m, f.sparse())
					}
					for route := 0; route < routes; route++ {
						x := mkL[T](f, m, route)
						r.Step(1)
						if err := enumerated(x, m, f.sparse()); err != nil {
							return rep.Errf("route %s: %v", routeNames[route], err)
						}
						if err := interleaved(x, m); err != nil {
							return rep.Errf("route %s: %v", routeNames[route], err)
						}
					}
					return nil
				})
			}
		}
	}
}

// interleaved runs a second enumeration while a first is under way.
func interleaved[T constraints.Type](x gb.MatrixLogical[T], m Mat[T]) error {
	var zero T
	a, n := x.Enumerate(), 0
	cnt := 0
	for a.HasNext() {
		if cnt++; cnt > len(m.D) {
			return rep.Errf("enumeration does not end")
		}
		b := x.Enumerate()
		if b.HasNext() {
			b.Next()
		}
		r, c, v := a.Next()
		if !model.Same(v, m.At(r, c)) {
			return rep.Errf("interleaved enumeration yields (%d,%d)=%v, want %v", r, c, v, m.At(r, c))
		}
		if v != zero {
			n++
		}
	}
	if n != m.NNZ() {
		return rep.Errf("interleaved enumeration yields %d nonzeros, want %d", n, m.NNZ())
	}
	return nil
}

func p03bool(r *rep.R) {
	r.Group("state graph", "")
	for _, s := range append(shapes(1, 3), [2]int{4, 2}) {
		s := s
		r.Case(func() string { return fmt.Sprintf("graph bool %dx%d", s[0], s[1]) }, func() error {
			if err := matGraph(r, func() gb.MatrixLogical[bool] { return gb.NewDenseMatrix[bool](s[0], s[1]) }, s[0], s[1], func(m Mat[bool]) []op[gb.MatrixLogical[bool], Mat[bool]] {
				return cellOps(m, []bool{false, true}, false)
			}, func(x gb.MatrixLogical[bool], m Mat[bool]) error { return enumerated(x, m, false) }, 60000); err != nil {
				return err
			}
			if s[1] != 1 {
				return nil
			}
			return vecGraph(r, func() gb.VectorLogial[bool] { return gb.NewDenseVector[bool](s[0]) }, s[0], []bool{false, true}, 6, 60000,
				func(x gb.VectorLogial[bool], m Mat[bool]) error { return enumerated[bool](x, m, false) })
		})
	}
}
