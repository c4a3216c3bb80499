package main

import (
	"context"
	"fmt"
	"math"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/strassen"
	gbsort "github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
	"verif.local/mc/model"
	"verif.local/mc/rep"
)

var bg = context.Background()

// ---- P04: in-place mapping -------------------------------------------------

// mapCheck maps x with the given result per cell (index into D) and checks visits and results.
func mapCheck[T constraints.Number](x gb.Matrix[T], m Mat[T], sparse bool, result func(i int, v T) T) error {
	seen := make([]int, len(m.D))
	want := m.Clone()
	var bad error
	n := 0
	for it := x.Map(); it.HasNext(); {
		if n++; n > len(m.D)+1 {
			return rep.Errf("mapping %v does not end", m)
		}
		called := 0
		it.Map(func(r, c int, v T) T {
			called++
			if r < 0 || c < 0 || r >= m.R || c >= m.C {
				bad = rep.Errf("mapping visits (%d,%d)", r, c)
				return v
			}
			i := r*m.C + c
			seen[i]++
			if !model.Same(v, m.D[i]) && bad == nil {
				bad = rep.Errf("mapping passes %v for (%d,%d), it held %v before the mapping; content %v", v, r, c, m.D[i], m)
			}
			want.D[i] = result(i, m.D[i])
			return want.D[i]
		})
		if called != 1 && bad == nil {
			bad = rep.Errf("one step of the mapping called the function %d times", called)
		}
		if bad != nil {
			return bad
		}
	}
	for i, s := range seen {
		stored := m.D[i] != 0 || !sparse
		if s > 1 || stored != (s == 1) {
			return rep.Errf("mapping visited (%d,%d) %d times; content %v", i/m.C, i%m.C, s, m)
		}
	}
	return expect[T](x, want, fmt.Sprintf("after mapping %v", m))
}

func (t tc[T]) P04(r *rep.R) {
	t.between(r, "mapping")
	t.apart(r, "mapping")
	t.nestedMap(r)
	r.Group("assignments", "every content and every assignment of zero/same/other results to its stored elements")
	type sp struct{ r, c int }
	specs := []sp{{2, 2}, {1, 4}, {4, 1}}
	alpha := []T{0, 2}
	if t.deep {
		specs = []sp{{1, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 5}, {5, 1}}
		if r.Thorough {
			specs = append(specs, sp{3, 3}, sp{1, 7}, sp{7, 1}, sp{2, 4}, sp{4, 2})
		}
	}
	for _, s := range specs {
		for _, f := range fmts(s.c) {
			for code := 0; code < model.Pow(2, s.r*s.c); code++ {
				s, f, code := s, f, code
				r.Case(func() string { return fmt.Sprintf("assign %s %v %dx%d content %d", t.name, f, s.r, s.c, code) }, func() error {
					m := model.Decode(s.r, s.c, alpha, code)
					var stored []int
					for i := range m.D {
						if m.D[i] != 0 || !f.sparse() {
							stored = append(stored, i)
						}
						if m.D[i] != 0 {
							m.D[i] = T(i + 1)
						}
					}
					for a := 0; a < model.Pow(3, len(stored)); a++ {
						pick := map[int]int{}
						q := a
						for _, i := range stored {
							pick[i] = q % 3
							q /= 3
						}
						r.Step(1)
						if err := mapCheck(mk(f, m, 1), m, f.sparse(), func(i int, v T) T {
							switch pick[i] {
							case 0:
								return 0
							case 1:
								return v
							}
							return v + 20
						}); err != nil {
							return rep.Errf("results %v (0 zero, 1 same, 2 other): %v", pick, err)
						}
					}
					return nil
				})
			}
		}
	}
	r.Group("left early", "every content, every number of steps before the mapping is left, every assignment of zero or other results to those steps; the mapping asked repeatedly, or never, whether there are more; then enumerated, mapped again and written")
	for _, s := range []sp{{2, 2}, {1, 4}, {4, 1}, {3, 2}} {
		for _, f := range fmts(s.c) {
			for code := 0; code < model.Pow(2, s.r*s.c); code++ {
				s, f, code := s, f, code
				if s.r*s.c > 4 && !t.deep {
					continue
				}
				r.Case(func() string { return fmt.Sprintf("left %s %v %dx%d content %d", t.name, f, s.r, s.c, code) }, func() error {
					m := model.Decode(s.r, s.c, []T{0, 2}, code)
					for i := range m.D {
						if m.D[i] != 0 {
							m.D[i] = T(i + 1)
						}
					}
					stored := m.NNZ()
					if !f.sparse() {
						stored = len(m.D)
					}
					for n := 0; n <= stored; n++ {
						for pat := 0; pat < model.Pow(2, n); pat++ {
							for asks := 0; asks < 3; asks++ {
								x, want := mk(f, m, 1), m.Clone()
								it := x.Map()
								seen := map[int]bool{}
								var bad error
								for k := 0; k < n; k++ {
									for a := 0; a < asks; a++ {
										if !it.HasNext() {
											return rep.Errf("no more after %d of %d elements of %v", k, stored, m)
										}
									}
									it.Map(func(i, j int, v T) T {
										if i < 0 || j < 0 || i >= s.r || j >= s.c || seen[i*s.c+j] || !model.Same(v, m.At(i, j)) {
											bad = rep.Errf("step %d passes (%d,%d)=%v of %v", k, i, j, v, m)
											return v
										}
										seen[i*s.c+j] = true
										if pat>>k&1 == 1 {
											want.Set(i, j, 0)
										} else {
											want.Set(i, j, v+20)
										}
										return want.At(i, j)
									})
									if bad != nil {
										return bad
									}
									if err := expect[T](x, want, fmt.Sprintf("after %d steps (zeros %b) of mapping %v", k+1, pat, m)); err != nil {
										return err
									}
								}
								if it.HasNext() != (n < stored) {
									return rep.Errf("after %d of %d elements (zeros %b) of %v: more %v", n, stored, pat, m, !(n < stored))
								}
								if asks == 2 && n < stored {
									// left by a panic of the function
									func() {
										defer func() { _ = recover() }()
										it.Map(func(int, int, T) T { panic("the caller's own") })
									}()
								}
								what := fmt.Sprintf("mapping of %v left after %d steps (zeros %b): ", m, n, pat)
								if err := enumerated[T](x, want, f.sparse()); err != nil {
									return rep.Errf("%s%v", what, err)
								}
								r.Step(1)
								if err := mapCheck(x, want.Clone(), f.sparse(), func(i int, v T) T {
									if i%2 == 0 {
										return 0
									}
									return v + 1
								}); err != nil {
									return rep.Errf("%s%v", what, err)
								}
								z := read[T](x)
								if err := enumerated[T](x, z, f.sparse()); err != nil {
									return rep.Errf("%smapped again: %v", what, err)
								}
								for i := range z.D {
									x.Set(i/s.c, i%s.c, T(i%3))
									z.D[i] = T(i % 3)
									if err := expect[T](x, z, what+"then written"); err != nil {
										return err
									}
								}
							}
						}
					}
					return nil
				})
			}
		}
	}
	r.Group("families", "sizes to 65, every family, patterns of zero results (none, all, alternate, halves, runs, all but one); mapped twice")
	sh := [][2]int{{0, 0}, {0, 2}, {2, 0}, {5, 7}, {9, 1}, {1, 9}, {17, 17}}
	if t.deep {
		sh = append(sh, [2]int{33, 33}, [2]int{65, 1}, [2]int{1, 65}, [2]int{65, 5})
	}
	sh = append(sh, t.long(true)...)
	for _, s := range sh {
		for _, f := range fmts(s[1]) {
			for k := 0; k < families; k++ {
				s, f, k := s, f, k
				r.Case(func() string { return fmt.Sprintf("family %s %v %dx%d k=%d", t.name, f, s[0], s[1], k) }, func() error {
					m := family(s[0], s[1], k, t.neg1(), t.half())
					for pat := 0; pat < 10; pat++ {
						res := func(i int, v T) T {
							zero := false
							switch pat {
							case 1:
								zero = true
							case 2:
								zero = i%2 == 0
							case 3:
								zero = i%2 == 1
							case 4:
								zero = i < len(m.D)/2
							case 5:
								zero = i >= len(m.D)/2
							case 6:
								zero = i%7 < 4
							case 7:
								zero = s[1] > 0 && i%s[1] == 0
							case 8:
								zero = s[1] > 0 && i/s[1] == 1
							case 9:
								zero = i != len(m.D)-1
							}
							if zero {
								return 0
							}
							return v + v + 1
						}
						x := mk(f, m, 1)
						r.Step(2)
						if err := mapCheck(x, m, f.sparse(), res); err != nil {
							return rep.Errf("pattern %d: %v", pat, err)
						}
						if err := mapCheck(x, read[T](x), f.sparse(), func(i int, v T) T { return v + 1 }); err != nil {
							return rep.Errf("second mapping after pattern %d: %v", pat, err)
						}
					}
					return nil
				})
			}
		}
	}
}

// ---- P05: extraction -------------------------------------------------------

func extractCheck[T constraints.Type](x gb.MatrixLogical[T], m Mat[T]) error {
	vec := func(v gb.VectorLogial[T], n int, at func(int) T, what string) error {
		if isNil(v) {
			return rep.Errf("%s is nil", what)
		}
		if v.Length() != n || v.Rows() != n || v.Columns() != 1 || v.Size() != n {
			return rep.Errf("%s: length %d, %dx%d, size %d, want %d; source %v", what, v.Length(), v.Rows(), v.Columns(), v.Size(), n, m)
		}
		for i := 0; i < n; i++ {
			if g := v.AtVec(i); !model.Same(g, at(i)) {
				return rep.Errf("%s: element %d = %v, want %v; source %v", what, i, g, at(i), m)
			}
			if g := v.At(i, 0); !model.Same(g, at(i)) {
				return rep.Errf("%s: At(%d,0) = %v, want %v; source %v", what, i, g, at(i), m)
			}
		}
		return nil
	}
	for i := 0; i < m.R; i++ {
		at := func(j int) T { return m.At(i, j) }
		if err := vec(x.RowsAt(i), m.C, at, fmt.Sprintf("RowsAt(%d)", i)); err != nil {
			return err
		}
		a := x.RowsAtToArray(i)
		if len(a) != m.C {
			return rep.Errf("RowsAtToArray(%d) has length %d, want %d", i, len(a), m.C)
		}
		for j := range a {
			if !model.Same(a[j], at(j)) {
				return rep.Errf("RowsAtToArray(%d)[%d] = %v, want %v; source %v", i, j, a[j], at(j), m)
			}
		}
	}
	for j := 0; j < m.C; j++ {
		if err := vec(x.ColumnsAt(j), m.R, func(i int) T { return m.At(i, j) }, fmt.Sprintf("ColumnsAt(%d)", j)); err != nil {
			return err
		}
	}
	return expect(x, m, "source after extraction")
}

func (t tc[T]) P05(r *rep.R) {
	t.between(r, "extraction")
	t.apart(r, "extraction")
	r.Group("contents", "every content of small shapes, every row and column")
	type sp struct {
		r, c  int
		alpha []T
	}
	specs := []sp{{2, 2, []T{0, 1, t.wide()}}, {1, 4, []T{0, 1}}, {4, 1, []T{0, 1}}}
	if t.deep {
		specs = []sp{{2, 2, t.alpha5()}, {2, 3, []T{0, 1, t.neg1()}}, {3, 2, []T{0, 1, t.neg1()}}, {3, 3, []T{0, 1}}, {1, 7, []T{0, 1}}, {7, 1, []T{0, 1}}, {2, 5, []T{0, 1}}, {5, 2, []T{0, 1}}}
		if r.Thorough {
			specs = append(specs, sp{3, 3, []T{0, 1, t.neg1()}}, sp{3, 4, []T{0, 1}}, sp{4, 3, []T{0, 1}}, sp{1, 10, []T{0, 1}}, sp{10, 1, []T{0, 1}})
		}
	}
	if v := t.special(); v != nil {
		specs = append(specs, sp{2, 2, v}, sp{3, 1, v})
	}
	for _, s := range specs {
		for _, f := range fmtsL(s.c) {
			for code := 0; code < model.Pow(len(s.alpha), s.r*s.c); code++ {
				s, f, code := s, f, code
				r.Case(func() string { return fmt.Sprintf("extract %s %v %dx%d content %d", t.name, f, s.r, s.c, code) }, func() error {
					m := model.Decode(s.r, s.c, s.alpha, code)
					r.Step(int64(2*s.r + s.c))
					return extractCheck(mkL[T](f, m, code%routes), m)
				})
			}
		}
	}
	r.Group("families", "sizes to 129, every family and construction route")
	sh := [][2]int{{0, 3}, {3, 0}, {5, 7}, {9, 1}, {1, 9}, {17, 16}}
	if t.deep {
		sh = append(sh, [2]int{33, 32}, [2]int{32, 33}, [2]int{65, 1}, [2]int{1, 65}, [2]int{65, 64}, [2]int{3, 129}, [2]int{129, 3})
	}
	sh = append(sh, t.long(true)...)
	for _, s := range sh {
		for _, f := range fmtsL(s[1]) {
			for k := 0; k < families; k++ {
				s, f, k := s, f, k
				r.Case(func() string { return fmt.Sprintf("family %s %v %dx%d k=%d", t.name, f, s[0], s[1], k) }, func() error {
					m := family(s[0], s[1], k, t.neg1(), t.half())
					for route := 0; route < routes; route++ {
						r.Step(int64(2*s[0] + s[1]))
						if err := extractCheck(mkL[T](f, m, route), m); err != nil {
							return rep.Errf("route %s: %v", routeNames[route], err)
						}
					}
					return nil
				})
			}
		}
	}
}

func boolMat(m Mat[bool]) gb.MatrixLogical[bool] {
	x := gb.NewDenseMatrix[bool](m.R, m.C)
	for i := range m.D {
		x.Set(i/m.C, i%m.C, m.D[i])
	}
	return x
}

func boolVec(m Mat[bool]) gb.VectorLogial[bool] {
	return gb.NewDenseVectorFromArray(append([]bool(nil), m.D...))
}

func p05bool(r *rep.R) {
	r.Group("contents", "")
	for _, s := range append(shapes(1, 3), [2]int{5, 1}) {
		for code := 0; code < model.Pow(2, s[0]*s[1]); code++ {
			s, code := s, code
			r.Case(func() string { return fmt.Sprintf("extract bool %dx%d content %d", s[0], s[1], code) }, func() error {
				m := model.Decode(s[0], s[1], []bool{false, true}, code)
				r.Step(1)
				if s[1] == 1 {
					if err := extractCheck[bool](boolVec(m), m); err != nil {
						return err
					}
				}
				return extractCheck(boolMat(m), m)
			})
		}
	}
}

// ---- P06: independence -----------------------------------------------------

// producer makes results from operands.
type producer[T constraints.Type] struct {
	name string
	make func(ops []gb.MatrixLogical[T]) []gb.MatrixLogical[T]
}

func producersL[T constraints.Type]() []producer[T] {
	type L = gb.MatrixLogical[T]
	return []producer[T]{
		{"CopyLogical", func(o []L) []L { return []L{o[0].CopyLogical()} }},
		{"CopyLogical of CopyLogical", func(o []L) []L { a := o[0].CopyLogical(); return []L{a, a.CopyLogical()} }},
		{"Transpose", func(o []L) []L { return []L{o[0].Transpose()} }},
		{"Transpose twice", func(o []L) []L { a := o[0].Transpose(); return []L{a, a.Transpose()} }},
		{"rows", func(o []L) []L {
			var out []L
			for i := 0; i < o[0].Rows(); i++ {
				out = append(out, o[0].RowsAt(i))
			}
			return out
		}},
		{"columns", func(o []L) []L {
			var out []L
			for i := 0; i < o[0].Columns(); i++ {
				out = append(out, o[0].ColumnsAt(i))
			}
			return out
		}},
		{"column of column", func(o []L) []L { a := o[0].ColumnsAt(0); return []L{a, a.ColumnsAt(0), a.RowsAt(0)} }},
		{"Equal", func(o []L) []L { o[0].Equal(o[1]); o[1].NotEqual(o[0]); return nil }},
	}
}

func producersN[T constraints.Number](t tc[T], square bool) []producer[T] {
	type L = gb.MatrixLogical[T]
	n := func(l L) gb.Matrix[T] { return l.(gb.Matrix[T]) }
	out := producersL[T]()
	out = append(out,
		producer[T]{"Copy", func(o []L) []L { return []L{n(o[0]).Copy()} }},
		producer[T]{"Scalar 1", func(o []L) []L { return []L{n(o[0]).Scalar(1)} }},
		producer[T]{"Scalar 0", func(o []L) []L { return []L{n(o[0]).Scalar(0)} }},
		producer[T]{"Scalar 3", func(o []L) []L { return []L{n(o[0]).Scalar(3)} }},
		producer[T]{"Negative", func(o []L) []L { return []L{n(o[0]).Negative()} }},
		producer[T]{"Add", func(o []L) []L { return []L{n(o[0]).Add(n(o[1]))} }},
		producer[T]{"Add self", func(o []L) []L { return []L{n(o[0]).Add(n(o[0]))} }},
		producer[T]{"Subtract", func(o []L) []L { return []L{n(o[0]).Subtract(n(o[1]))} }},
		producer[T]{"Subtract self", func(o []L) []L { return []L{n(o[0]).Subtract(n(o[0]))} }},
		producer[T]{"TransposeToCSR", func(o []L) []L { return []L{gb.TransposeToCSR(bg, n(o[0]))} }},
		producer[T]{"TransposeToCSC", func(o []L) []L { return []L{gb.TransposeToCSC(bg, n(o[0]))} }},
		producer[T]{"reductions", func(o []L) []L {
			return []L{gb.ReduceMatrixToVector(bg, n(o[0])), func() L { gb.ReduceMatrixToScalar(bg, o[0], n(o[1])); return gb.NewDenseVectorN[T](1) }()}
		}},
		producer[T]{"Multiply by transpose", func(o []L) []L { return []L{n(o[0]).Multiply(gb.TransposeToCSR(bg, n(o[1])))} }},
	)
	ops := func(name string, f func(o []L, out gb.Matrix[T])) {
		for _, of := range matF {
			of := of
			out = append(out, producer[T]{name + " into " + of.String(), func(o []L) []L {
				x := empty[T](of, o[0].Rows(), o[0].Columns())
				f(o, x)
				return []L{x}
			}})
		}
	}
	ops("operator Add", func(o []L, x gb.Matrix[T]) { gb.Add(bg, n(o[0]), n(o[1]), nil, x) })
	ops("operator Subtract", func(o []L, x gb.Matrix[T]) { gb.Subtract(bg, n(o[0]), n(o[1]), nil, x) })
	ops("operator Negative", func(o []L, x gb.Matrix[T]) { gb.Negative(bg, n(o[0]), nil, x) })
	ops("operator Apply masked", func(o []L, x gb.Matrix[T]) {
		gb.Apply(bg, n(o[0]), n(o[1]), unaryop.NewUnaryOp(func(v T) T { return v + v }), x)
	})
	ops("operator Add masked", func(o []L, x gb.Matrix[T]) { gb.Add(bg, n(o[0]), n(o[1]), n(o[1]), x) })
	if square {
		out = append(out,
			producer[T]{"Multiply", func(o []L) []L { return []L{n(o[0]).Multiply(n(o[1]))} }},
			producer[T]{"Multiply self", func(o []L) []L { return []L{n(o[0]).Multiply(n(o[0]))} }},
			producer[T]{"Strassen", func(o []L) []L { return []L{strassen.MultiplyCrossoverPoint(bg, n(o[0]), n(o[1]), 1)} }},
			producer[T]{"Strassen default", func(o []L) []L { return []L{strassen.Multiply(bg, n(o[0]), n(o[1]))} }},
			producer[T]{"BFS", func(o []L) []L {
				return []L{breadthfirst.Search(bg, n(o[0]), 0, func(gb.Vector[T]) bool { return false })}
			}},
			producer[T]{"BFS accepted", func(o []L) []L {
				return []L{breadthfirst.Search(bg, n(o[0]), 0, func(gb.Vector[T]) bool { return true })}
			}},
		)
		ops("operator Multiply", func(o []L, x gb.Matrix[T]) { gb.MatrixMatrixMultiply(bg, n(o[0]), n(o[1]), nil, x) })
		ops("operator eWiseMult", func(o []L, x gb.Matrix[T]) { gb.ElementWiseMatrixMultiply(bg, n(o[0]), n(o[1]), nil, x) })
		ops("operator eWiseAdd", func(o []L, x gb.Matrix[T]) { gb.ElementWiseMatrixAdd(bg, n(o[0]), n(o[1]), nil, x) })
		ops("operator Transpose", func(o []L, x gb.Matrix[T]) { gb.Transpose[T](bg, o[0], nil, x) })
		if t.float() {
			out = append(out, producer[T]{"Reduced", func(o []L) []L { return []L{reduced.Reduced(n(o[0]))} }})
		}
	}
	return out
}

// indep runs a producer and then writes to every side in turn, checking the others.
func indep[T constraints.Type](mkops func() []gb.MatrixLogical[T], ms []Mat[T], p producer[T], other func(T) T, more ...func(L gb.MatrixLogical[T])) (err error) {
	type L = gb.MatrixLogical[T]
	check := func(o []L, ms []Mat[T], what string) error {
		for i := range o {
			if err := expect(o[i], ms[i], fmt.Sprintf("%s: %s %d", p.name, what, i)); err != nil {
				return err
			}
		}
		return nil
	}
	var zero T
	scribble := func(x L, mode int) {
		rows, cols := x.Rows(), x.Columns()
		switch mode {
		case 0:
			for i := rows - 1; i >= 0; i-- {
				for j := 0; j < cols; j++ {
					x.Set(i, j, other(x.At(i, j)))
				}
			}
		case 1:
			for i := 0; i < rows; i++ {
				for j := 0; j < cols; j++ {
					x.Set(i, j, zero)
				}
			}
		case 2:
			x.Clear()
			for i := 0; i < rows; i++ {
				for j := 0; j < cols; j++ {
					x.Update(i, j, other)
				}
			}
		case 3:
			if z, ok := x.(resizer); ok {
				z.ReSize(rows + 2)
				z.ReSize(1)
			}
		default:
			more[mode-4](x)
		}
	}
	for mode := 0; mode < 4+len(more); mode++ {
		o := mkops()
		res := p.make(o)
		if err := check(o, ms, "operand (after the operation)"); err != nil {
			return err
		}
		want := make([]Mat[T], len(res))
		for i := range res {
			want[i] = read(res[i])
		}
		// a result may not be one of the operands or another result
		for i := range res {
			before := want
			scribble(res[i], mode)
			if err := check(o, ms, fmt.Sprintf("writing result %d (mode %d) changed operand", i, mode)); err != nil {
				return err
			}
			for k := range res {
				if k != i {
					if e := expect(res[k], before[k], fmt.Sprintf("%s: writing result %d changed result %d", p.name, i, k)); e != nil {
						return e
					}
				}
			}
			want[i] = read(res[i])
		}
		o = mkops()
		res = p.make(o)
		for i := range res {
			want[i] = read(res[i])
		}
		for i := range o {
			scribble(o[i], mode)
			for k := range res {
				if e := expect(res[k], want[k], fmt.Sprintf("%s: writing operand %d (mode %d) changed result %d", p.name, i, mode, k)); e != nil {
					return e
				}
			}
		}
		// the same again, on these operands and on new ones, does not touch the first results
		if mode > 1 {
			continue
		}
		for _, o2 := range [][]L{o, mkops()} {
			res2 := p.make(o2)
			want2 := make([]Mat[T], len(res2))
			for k := range res2 {
				want2[k] = read(res2[k])
			}
			for k := range res {
				if e := expect(res[k], want[k], fmt.Sprintf("%s: making it again changed the earlier result %d", p.name, k)); e != nil {
					return e
				}
			}
			for k := range res {
				scribble(res[k], mode)
				want[k] = read(res[k])
			}
			for k := range res2 {
				if e := expect(res2[k], want2[k], fmt.Sprintf("%s: writing the earlier result changed the later %d", p.name, k)); e != nil {
					return e
				}
				scribble(res2[k], mode)
			}
			for k := range res {
				if e := expect(res[k], want[k], fmt.Sprintf("%s: writing the later result changed the earlier %d", p.name, k)); e != nil {
					return e
				}
			}
		}
	}
	return nil
}

// scribbles are further ways of changing an object of any format; what they change it to does not matter.
func scribbles[T tnum]() []func(gb.MatrixLogical[T]) {
	type L = gb.MatrixLogical[T]
	num := func(f func(x gb.Matrix[T])) func(L) {
		return func(x L) {
			if n, ok := x.(gb.Matrix[T]); ok {
				f(n)
			}
		}
	}
	each := func(g func(r, c int, v T) T) func(L) {
		return num(func(x gb.Matrix[T]) {
			for it, n := x.Map(), 0; it.HasNext() && n <= x.Size(); n++ {
				it.Map(g)
			}
		})
	}
	pattern := func(x gb.Matrix[T]) gb.Matrix[T] {
		m := model.New[T](x.Rows(), x.Columns())
		for i := range m.D {
			m.D[i] = T(i % 2)
		}
		return mk(fCSR, m, 1)
	}
	return []func(L){
		each(func(_, _ int, v T) T { return v + 2 }),
		each(func(r, c int, v T) T {
			if (r+c)%2 == 0 {
				return 0
			}
			return v + 1
		}),
		num(func(x gb.Matrix[T]) {
			gb.Apply[T](bg, x, nil, unaryop.NewUnaryOp(func(v T) T { return v + v }), x)
		}),
		num(func(x gb.Matrix[T]) { gb.ElementWiseMatrixMultiply[T](bg, x, pattern(x), nil, x) }),
		num(func(x gb.Matrix[T]) { gb.ElementWiseMatrixAdd[T](bg, x, pattern(x), nil, x) }),
		num(func(x gb.Matrix[T]) {
			full := model.New[T](x.Rows(), x.Columns())
			for i := range full.D {
				full.D[i] = 5
			}
			gb.Apply[T](bg, mk(fDEN, full, 1), pattern(x), unaryop.NewUnaryOp(func(v T) T { return v }), x)
		}),
		num(func(x gb.Matrix[T]) {
			one, two := model.New[T](x.Rows(), 1), model.New[T](1, x.Columns())
			for i := range one.D {
				one.D[i] = 1
			}
			for i := range two.D {
				two.D[i] = T(i + 2)
			}
			gb.MatrixMatrixMultiply[T](bg, mk(fCSC, one, 1), mk(fDEN, two, 1), nil, x)
		}),
		func(x L) {
			if c, ok := x.(gb.MatrixCompressed[T]); ok && x.Size() > 0 {
				c.SetReturnPointer(x.Rows()-1, 0, 7)
				c.SetReturnPointer(0, 0, 0)
			}
			if v, ok := x.(gb.VectorLogial[T]); ok && v.Length() > 0 {
				v.SetVec(0, 0)
				v.SetVec(v.Length()-1, 7)
			}
		},
	}
}

func (t tc[T]) P06(r *rep.R) {
	t.between(r, "copy")
	t.apart(r, "copy")
	r.Group("producers", "every producing operation over contents of shapes to 3x3, all format pairs; then every side overwritten, zeroed, cleared, resized")
	type sp struct {
		r, c  int
		codes int
	}
	alpha := []T{0, 1}
	specs := []sp{{2, 2, 4}, {3, 1, 2}}
	if t.deep {
		specs = []sp{{2, 2, 16}, {1, 1, 2}, {2, 3, 8}, {3, 1, 8}, {1, 3, 8}, {3, 3, 12}}
		if r.Thorough {
			specs = []sp{{2, 2, 16}, {1, 1, 2}, {2, 3, 64}, {3, 2, 64}, {3, 1, 8}, {1, 3, 8}, {3, 3, 64}, {5, 1, 32}, {4, 4, 20}}
		}
	}
	for _, s := range specs {
		prod := producersN(t, s.r == s.c)
		prodL := producersL[T]()
		total := model.Pow(2, s.r*s.c)
		for _, fa := range fmtsL(s.c) {
			for _, fb := range fmtsL(s.c) {
				ps := prod
				if fa == fDENL || fa == fDVL || fb == fDENL || fb == fDVL {
					ps = prodL
				}
				for ci := 0; ci < s.codes; ci++ {
					code := ci * 37 % total
					if s.codes >= total {
						code = ci
					}
					if ci == s.codes-1 {
						code = total - 1
					}
					for pi := range ps {
						s, fa, fb, code, p := s, fa, fb, code, ps[pi]
						r.Case(func() string {
							return fmt.Sprintf("indep %s %v,%v %dx%d content %d %s", t.name, fa, fb, s.r, s.c, code, p.name)
						}, func() error {
							ma := model.Decode(s.r, s.c, alpha, code)
							mb := model.Decode(s.r, s.c, alpha, (code*5+2)%total)
							if code%3 == 1 {
								mb = model.New[T](s.r, s.c)
								for i := 0; i < s.r && i < s.c; i++ {
									mb.Set(i, i, 1) // neutral operand
								}
							}
							if code%3 == 2 {
								mb = model.New[T](s.r, s.c)
							}
							r.Step(8)
							return indep(func() []gb.MatrixLogical[T] {
								return []gb.MatrixLogical[T]{mkL[T](fa, ma, code%routes), mkL[T](fb, mb, (code+1)%routes)}
							}, []Mat[T]{ma, mb}, p, func(v T) T { return v + 3 }, scribbles[T]()...)
						})
					}
				}
			}
		}
	}
	r.Group("arrays", "extracted arrays written by the caller; arrays kept by the caller after extraction")
	for _, f := range fmtsL(1) {
		for _, c := range []int{1, 3} {
			if f.vector() && c != 1 {
				continue
			}
			f, c := f, c
			r.Case(func() string { return fmt.Sprintf("array %s %v 3x%d", t.name, f, c) }, func() error {
				m := family(3, c, 1, t.neg1(), t.half())
				x := mkL[T](f, m, 1)
				for i := 0; i < 3; i++ {
					a := x.RowsAtToArray(i)
					b := x.RowsAtToArray(i)
					for j := range a {
						a[j] = 99
					}
					if err := expect(x, m, "writing an extracted array"); err != nil {
						return err
					}
					for j := range b {
						if b[j] != m.At(i, j) {
							return rep.Errf("two extracted arrays share memory")
						}
					}
				}
				arrs := [][]T{x.RowsAtToArray(0), x.RowsAtToArray(1)}
				for i := 0; i < 3; i++ {
					for j := 0; j < c; j++ {
						x.Set(i, j, 77)
					}
				}
				for i, a := range arrs {
					for j := range a {
						if a[j] != m.At(i, j) {
							return rep.Errf("writing the source changed an extracted array")
						}
					}
				}
				return nil
			})
		}
	}
	if t.name != "int32" {
		return
	}
	r.Group("sorts", "sorting leaves its input unchanged and shares nothing with it")
	for _, f := range matFL {
		for code := 0; code < model.Pow(2, 6); code++ {
			for k := 0; k < 2; k++ {
				f, code, k := f, code, k
				r.Case(func() string { return fmt.Sprintf("sort rune %v content %d by %d", f, code, k) }, func() error {
					a := model.Decode(3, 2, []int32{'a', 'b'}, code)
					return indep(func() []gb.MatrixLogical[int32] { return []gb.MatrixLogical[int32]{mkL[int32](f, a, 1)} }, []Mat[int32]{a},
						producer[int32]{"sort", func(o []gb.MatrixLogical[int32]) []gb.MatrixLogical[int32] {
							if k == 0 {
								return []gb.MatrixLogical[int32]{gbsort.BubbleRow(bg, o[0])}
							}
							return []gb.MatrixLogical[int32]{gbsort.BubbleColumns(bg, o[0])}
						}}, func(v int32) int32 { return v + 1 })
				})
			}
		}
	}
}

func p06bool(r *rep.R) {
	r.Group("producers", "")
	for _, s := range append(shapes(1, 2), [2]int{2, 3}, [2]int{3, 1}) {
		for code := 0; code < model.Pow(2, s[0]*s[1]); code++ {
			for pi, p := range producersL[bool]() {
				s, code, p, pi := s, code, p, pi
				r.Case(func() string { return fmt.Sprintf("indep bool %dx%d content %d %s", s[0], s[1], code, p.name) }, func() error {
					_ = pi
					m := model.Decode(s[0], s[1], []bool{false, true}, code)
					if err := indep(func() []gb.MatrixLogical[bool] { return []gb.MatrixLogical[bool]{boolMat(m), boolMat(m)} }, []Mat[bool]{m, m}, p, func(v bool) bool { return !v }); err != nil || s[1] != 1 {
						return err
					}
					return indep(func() []gb.MatrixLogical[bool] { return []gb.MatrixLogical[bool]{boolVec(m), boolMat(m)} }, []Mat[bool]{m, m}, p, func(v bool) bool { return !v })
				})
			}
		}
	}
}

// ---- P07: equality ---------------------------------------------------------

func eqCheck[T constraints.Type](x, y gb.MatrixLogical[T], want bool) error {
	for i, g := range []bool{x.Equal(y), y.Equal(x), !x.NotEqual(y), !y.NotEqual(x), gb.Equal(bg, x, y), gb.Equal(bg, y, x), !gb.NotEqual(bg, x, y), !gb.NotEqual(bg, y, x)} {
		if g != want {
			return rep.Errf("%s: equal reported as %v, want %v", [...]string{"x.Equal(y)", "y.Equal(x)", "x.NotEqual(y)", "y.NotEqual(x)", "Equal(x,y)", "Equal(y,x)", "NotEqual(x,y)", "NotEqual(y,x)"}[i], g, want)
		}
	}
	return nil
}

func (t tc[T]) P07(r *rep.R) {
	t.between(r, "equality")
	t.apart(r, "equality")
	r.Group("pairs", "every pair of contents, every pair of formats, both orders, method and operator")
	type sp struct {
		r, c  int
		alpha []T
	}
	specs := []sp{{2, 2, []T{0, 1}}, {1, 2, t.alpha5()}, {2, 1, t.alpha5()}}
	if t.deep {
		specs = []sp{{2, 2, []T{0, 1, t.wide()}}, {3, 1, []T{0, 1, t.neg1()}}, {2, 1, t.alpha5()}, {1, 3, []T{0, 1, t.neg1()}}, {2, 3, []T{0, 1}}}
		if r.Thorough {
			specs = append(specs, sp{3, 3, []T{0, 1}}, sp{5, 1, []T{0, 1}}, sp{2, 2, []T{0, 1, t.neg1(), t.wide()}}, sp{8, 1, []T{0, 1}})
		}
	}
	specs = append(specs, sp{1, 1, t.close()}, sp{1, 1, t.alpha5()})
	for _, s := range specs {
		n := model.Pow(len(s.alpha), s.r*s.c)
		for _, fa := range fmtsL(s.c) {
			for _, fb := range fmtsL(s.c) {
				if fb < fa {
					continue
				}
				for a := 0; a < n; a++ {
					s, fa, fb, a := s, fa, fb, a
					r.Case(func() string { return fmt.Sprintf("pairs %s %v,%v %dx%d content %d", t.name, fa, fb, s.r, s.c, a) }, func() error {
						ma := model.Decode(s.r, s.c, s.alpha, a)
						x := mkL[T](fa, ma, a%routes)
						if x.Equal(nil) || !x.NotEqual(nil) || gb.Equal(bg, nil, x) || gb.Equal(bg, x, nil) || !gb.NotEqual(bg, nil, x) || !gb.Equal[T](bg, nil, nil) || gb.NotEqual[T](bg, nil, nil) {
							return rep.Errf("comparison with nil")
						}
						for b := 0; b < n; b++ {
							mb := model.Decode(s.r, s.c, s.alpha, b)
							r.Step(8)
							if err := eqCheck(x, mkL[T](fb, mb, (a+b)%routes), ma.Equal(mb)); err != nil {
								return rep.Errf("%v and %v: %v", ma, mb, err)
							}
						}
						return eqCheck(x, x, true)
					})
				}
			}
		}
	}
	r.Group("shapes", "every pair of shapes from 0x0 to 4x4, zero and one-filled, all format pairs")
	for _, sa := range shapes(0, 4) {
		for _, sb := range shapes(0, 4) {
			if !t.deep && sa[0]*sa[1] != sb[0]*sb[1] {
				continue
			}
			sa, sb := sa, sb
			r.Case(func() string { return fmt.Sprintf("shapes %s %v %v", t.name, sa, sb) }, func() error {
				for k := 0; k < 2; k++ {
					for _, fa := range fmtsL(sa[1]) {
						for _, fb := range fmtsL(sb[1]) {
							r.Step(8)
							if err := eqCheck(mkL[T](fa, family[T](sa[0], sa[1], k, 1, 1), 1), mkL[T](fb, family[T](sb[0], sb[1], k, 1, 1), 1), sa == sb && (k == 0 || true)); err != nil {
								return rep.Errf("%v %v and %v %v: %v", fa, sa, fb, sb, err)
							}
						}
					}
				}
				return nil
			})
		}
	}
	r.Group("one difference", "sizes to 65: equal, and different in exactly one cell, for every cell (quick: every cell of lines, edges of squares), all format pairs and routes")
	sh := [][2]int{{5, 1}, {3, 9}, {9, 3}}
	if t.deep {
		sh = append([][2]int{{9, 1}, {1, 9}, {17, 1}, {33, 1}, {65, 1}, {9, 9}, {17, 5}, {5, 33}}, t.long(false)...)
	}
	for _, s := range sh {
		for _, fa := range fmtsL(s[1]) {
			for _, fb := range fmtsL(s[1]) {
				if fb < fa {
					continue
				}
				for k := 0; k < families; k++ {
					s, fa, fb, k := s, fa, fb, k
					r.Case(func() string { return fmt.Sprintf("diff %s %v,%v %dx%d k=%d", t.name, fa, fb, s[0], s[1], k) }, func() error {
						m := family(s[0], s[1], k, t.neg1(), t.half())
						x := mkL[T](fa, m, k%routes)
						y := mkL[T](fb, m, (k+1)%routes)
						if err := eqCheck(x, y, true); err != nil {
							return err
						}
						for i := range m.D {
							for _, v := range []T{0, m.D[i] + 1} {
								if v == m.D[i] {
									continue
								}
								y.Set(i/s[1], i%s[1], v)
								r.Step(1)
								if x.Equal(y) || y.Equal(x) || !x.NotEqual(y) {
									return rep.Errf("cell %d is %v in one and %v in the other, compared equal", i, m.D[i], v)
								}
								y.Set(i/s[1], i%s[1], m.D[i])
							}
						}
						return eqCheck(x, y, true)
					})
				}
			}
		}
	}
}

func p07bool(r *rep.R) {
	r.Group("pairs", "")
	for _, s := range [][2]int{{2, 2}, {3, 1}, {1, 3}, {2, 3}} {
		n := model.Pow(2, s[0]*s[1])
		for a := 0; a < n; a++ {
			s, a := s, a
			r.Case(func() string { return fmt.Sprintf("pairs bool %v content %d", s, a) }, func() error {
				ma := model.Decode(s[0], s[1], []bool{false, true}, a)
				for b := 0; b < n; b++ {
					mb := model.Decode(s[0], s[1], []bool{false, true}, b)
					r.Step(8)
					if err := eqCheck(boolMat(ma), boolMat(mb), a == b); err != nil {
						return rep.Errf("%v %v: %v", ma, mb, err)
					}
					if s[1] == 1 {
						if err := eqCheck[bool](boolVec(ma), boolMat(mb), a == b); err != nil {
							return rep.Errf("%v %v: %v", ma, mb, err)
						}
						if err := eqCheck[bool](boolVec(ma), boolVec(mb), a == b); err != nil {
							return rep.Errf("%v %v: %v", ma, mb, err)
						}
					}
				}
				return nil
			})
		}
	}
}

// ---- P08: rejection --------------------------------------------------------

func badIndexes(n int) []int {
	return []int{-1, -2, n, n + 1, 2*n + 1, math.MinInt, math.MaxInt, -n - 1}
}

func (t tc[T]) P08(r *rep.R) {
	r.Group("indices", "every accessor with every class of invalid row, column or both; content re-read and written after each rejection")
	sh := [][2]int{{1, 1}, {2, 2}, {2, 3}, {3, 1}}
	if t.deep {
		sh = [][2]int{{1, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 3}, {3, 1}, {9, 1}, {1, 9}, {9, 10}}
	}
	for _, s := range sh {
		for _, f := range fmtsL(s[1]) {
			for k := 0; k < families; k += 1 {
				s, f, k := s, f, k
				r.Case(func() string { return fmt.Sprintf("index %s %v %dx%d k=%d", t.name, f, s[0], s[1], k) }, func() error {
					m := family(s[0], s[1], k, t.neg1(), t.half())
					type acc struct {
						name string
						f    func(x gb.MatrixLogical[T], i, j int)
					}
					rc := []acc{
						{"At", func(x gb.MatrixLogical[T], i, j int) { x.At(i, j) }},
						{"Set", func(x gb.MatrixLogical[T], i, j int) { x.Set(i, j, 5) }},
						{"Set zero", func(x gb.MatrixLogical[T], i, j int) { x.Set(i, j, 0) }},
						{"Update", func(x gb.MatrixLogical[T], i, j int) { x.Update(i, j, func(v T) T { return v + 5 }) }},
					}
					if f != fDENL && f != fDVL {
						rc = append(rc, acc{"Element", func(x gb.MatrixLogical[T], i, j int) { x.(gb.Matrix[T]).Element(i, j) }})
					}
					if f == fCSR || f == fCSC {
						rc = append(rc, acc{"SetReturnPointer", func(x gb.MatrixLogical[T], i, j int) { x.(gb.MatrixCompressed[T]).SetReturnPointer(i, j, 5) }},
							acc{"UpdateReturnPointer", func(x gb.MatrixLogical[T], i, j int) {
								x.(gb.MatrixCompressed[T]).UpdateReturnPointer(i, j, func(v T) T { return 4 })
							}})
					}
					x := mkL[T](f, m, k%routes)
					try := func(name string, i, j int, g func()) error {
						r.Step(1)
						if !panics(g) {
							return rep.Errf("%s(%d,%d) on %dx%d was not rejected", name, i, j, s[0], s[1])
						}
						if err := expect(x, m, fmt.Sprintf("after rejected %s(%d,%d)", name, i, j)); err != nil {
							return err
						}
						return nil
					}
					for _, a := range rc {
						for _, bi := range badIndexes(s[0]) {
							for j := -1; j <= s[1]; j++ {
								if err := try(a.name, bi, j, func() { a.f(x, bi, j) }); err != nil {
									return err
								}
							}
						}
						for _, bj := range badIndexes(s[1]) {
							for i := 0; i < s[0]; i++ {
								if err := try(a.name, i, bj, func() { a.f(x, i, bj) }); err != nil {
									return err
								}
							}
						}
					}
					for _, bi := range badIndexes(s[0]) {
						if err := try("RowsAt", bi, 0, func() { x.RowsAt(bi) }); err != nil {
							return err
						}
						if err := try("RowsAtToArray", bi, 0, func() { x.RowsAtToArray(bi) }); err != nil {
							return err
						}
						if v, ok := x.(gb.VectorLogial[T]); ok {
							if err := try("AtVec", bi, 0, func() { v.AtVec(bi) }); err != nil {
								return err
							}
							if err := try("SetVec", bi, 0, func() { v.SetVec(bi, 3) }); err != nil {
								return err
							}
						}
					}
					for _, bj := range badIndexes(s[1]) {
						if err := try("ColumnsAt", 0, bj, func() { x.ColumnsAt(bj) }); err != nil {
							return err
						}
					}
					// still usable
					for i := range m.D {
						x.Set(i/m.C, i%m.C, T(i%50+1))
						m.D[i] = T(i%50 + 1)
					}
					return expect(x, m, "writes after rejections")
				})
			}
		}
	}
	r.Group("empty objects", "objects with zero rows or columns reject every index")
	for _, s := range [][2]int{{0, 0}, {0, 2}, {2, 0}} {
		for _, f := range matFL {
			s, f := s, f
			r.Case(func() string { return fmt.Sprintf("empty %s %v %dx%d", t.name, f, s[0], s[1]) }, func() error {
				x := emptyL[T](f, s[0], s[1])
				for i := -1; i < 3; i++ {
					for j := -1; j < 3; j++ {
						r.Step(2)
						if !panics(func() { x.At(i, j) }) || !panics(func() { x.Set(i, j, 1) }) {
							return rep.Errf("(%d,%d) accepted", i, j)
						}
						r.Step(1)
						if !panics(func() { x.Update(i, j, func(v T) T { return v }) }) {
							return rep.Errf("update of (%d,%d) accepted", i, j)
						}
					}
					r.Step(3)
					if row := i >= 0 && i < s[0]; panics(func() { x.RowsAt(i) }) == row || panics(func() { x.RowsAtToArray(i) }) == row {
						return rep.Errf("row %d accepted or rejected wrongly", i)
					}
					if col := i >= 0 && i < s[1]; panics(func() { x.ColumnsAt(i) }) == col {
						return rep.Errf("column %d accepted or rejected wrongly", i)
					}
				}
				return nil
			})
		}
	}

	r.Group("mismatch", "every operation with every pair of operand shapes up to 3x3, those without rows or columns included, that do not fit, and with every wrong mask shape; operands, mask and output re-read")
	type call struct {
		name   string
		fit    func(a, b [2]int) bool
		out    func(a, b [2]int) [2]int
		do     func(a, b gb.Matrix[T], mask gb.Mask, out gb.Matrix[T])
		vecOut bool
	}
	same := func(a, b [2]int) bool { return a == b }
	inner := func(a, b [2]int) bool { return a[1] == b[0] }
	outA := func(a, b [2]int) [2]int { return a }
	id := unaryop.NewUnaryOp(func(v T) T { return v })
	calls := []call{
		{"MatrixMatrixMultiply", inner, func(a, b [2]int) [2]int { return [2]int{a[0], b[1]} }, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.MatrixMatrixMultiply(bg, a, b, k, o) }, false},
		{"Add", same, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.Add(bg, a, b, k, o) }, false},
		{"Subtract", same, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.Subtract(bg, a, b, k, o) }, false},
		{"ElementWiseMatrixMultiply", same, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.ElementWiseMatrixMultiply(bg, a, b, k, o) }, false},
		{"ElementWiseMatrixAdd", same, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.ElementWiseMatrixAdd(bg, a, b, k, o) }, false},
		{"Apply", nil, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.Apply(bg, a, k, id, o) }, false},
		{"Apply in place", nil, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.Apply(bg, a, k, id, a) }, false},
		{"Negative", nil, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.Negative(bg, a, k, o) }, false},
		{"Transpose", nil, func(a, b [2]int) [2]int { return [2]int{a[1], a[0]} }, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.Transpose[T](bg, a, k, o) }, false},
		{"ReduceMatrixToScalar", nil, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.ReduceMatrixToScalar[T](bg, a, k) }, false},
		{"ReduceMatrixToScalarWithMonoID", nil, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) {
			gb.ReduceMatrixToScalarWithMonoID[T](bg, a, binaryop.NewMonoID(0, binaryop.Addition[T]()), k)
		}, false},
		{"Strassen", inner, nil, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { strassen.MultiplyCrossoverPoint(bg, a, b, 1) }, false},
		{"Strassen default", inner, nil, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { strassen.Multiply(bg, a, b) }, false},
		{"Multiply method", inner, nil, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { a.Multiply(b) }, false},
		{"Add method", same, nil, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { a.Add(b) }, false},
		{"Subtract method", same, nil, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { a.Subtract(b) }, false},
		{"MatrixVectorMultiply", inner, func(a, b [2]int) [2]int { return [2]int{a[0], 1} }, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) {
			gb.MatrixVectorMultiply(bg, a, b.(gb.Vector[T]), k, o.(gb.Vector[T]))
		}, true},
		{"VectorMatrixMultiply", inner, func(a, b [2]int) [2]int { return [2]int{a[0], 1} }, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) {
			gb.VectorMatrixMultiply(bg, b.(gb.Vector[T]), a, k, o.(gb.Vector[T]))
		}, true},
		{"ElementWiseVectorMultiply", same, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) {
			gb.ElementWiseVectorMultiply(bg, a.(gb.Vector[T]), b.(gb.Vector[T]), k, o.(gb.Vector[T]))
		}, true},
		{"ElementWiseVectorAdd", same, outA, func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) {
			gb.ElementWiseVectorAdd(bg, a.(gb.Vector[T]), b.(gb.Vector[T]), k, o.(gb.Vector[T]))
		}, true},
	}
	ss := append(shapes(1, 3), [2]int{0, 0}, [2]int{0, 1}, [2]int{1, 0}, [2]int{0, 3}, [2]int{3, 0})
	for _, cl := range calls {
		vecA := cl.name == "ElementWiseVectorMultiply" || cl.name == "ElementWiseVectorAdd"
		for _, sa := range ss {
			if vecA && sa[1] != 1 {
				continue
			}
			fas := fmts(sa[1])
			if vecA {
				fas = vecF
			}
			for _, fa := range fas {
				cl, sa, fa := cl, sa, fa
				r.Case(func() string { return fmt.Sprintf("mismatch %s %s %v %v", t.name, cl.name, fa, sa) }, func() error {
					for _, sb := range ss {
						if cl.vecOut && sb[1] != 1 || cl.fit == nil && sb != sa {
							continue
						}
						fbs := fmts(sb[1])
						if cl.vecOut {
							fbs = vecF
						}
						if !t.deep {
							fbs = fbs[:1]
						}
						for _, fb := range fbs {
							ma, mb := family(sa[0], sa[1], 6, t.neg1(), t.half()), family(sb[0], sb[1], 1, t.neg1(), t.half())
							if cl.fit != nil && !cl.fit(sa, sb) {
								// any output shape must be rejected with these operands
								for _, so := range [][2]int{sa, sb, {sa[0], sb[1]}} {
									if cl.vecOut {
										so[1] = 1
									}
									fos := fmts(so[1])
									if cl.vecOut {
										fos = vecF
									}
									for _, fo := range fos {
										mo := family(so[0], so[1], 1, t.neg1(), t.half())
										a, b, o := mk(fa, ma, 1), mk(fb, mb, 1), mk(fo, mo, 1)
										r.Step(1)
										if !panics(func() { cl.do(a, b, nil, o) }) {
											return rep.Errf("%s of %v %v and %v %v was not rejected", cl.name, fa, sa, fb, sb)
										}
										if err := first(func() error { return expect[T](a, ma, "operand") }, func() error { return expect[T](b, mb, "operand") }, func() error { return expect[T](o, mo, "output") }); err != nil {
											return rep.Errf("after rejected %s of %v %v and %v %v: %v", cl.name, fa, sa, fb, sb, err)
										}
									}
								}
								continue
							}
							if cl.out == nil {
								continue
							}
							so := cl.out(sa, sb)
							for _, sk := range append(shapes(1, 4), [2]int{so[0] + 1, so[1]}, [2]int{so[1], so[0]}) {
								if sk == so {
									continue
								}
								for _, fk := range []fm{fCSR, fDEN, fSV, -1} {
									if fk == fSV && sk[1] != 1 {
										continue
									}
									fos := fmts(so[1])
									if cl.vecOut {
										fos = vecF
									}
									if !t.deep {
										fos = fos[:1]
									}
									for _, fo := range fos {
										mo := family(so[0], so[1], 1, t.neg1(), t.half())
										mk0 := family(sk[0], sk[1], 6, t.neg1(), t.half())
										var k gb.Mask
										if fk < 0 {
											k = gb.NewEmptyMask(sk[0], sk[1])
										} else {
											k = mk(fk, mk0, 1)
										}
										a, b, o := mk(fa, ma, 1), mk(fb, mb, 1), mk(fo, mo, 1)
										r.Step(1)
										if !panics(func() { cl.do(a, b, k, o) }) {
											return rep.Errf("%s of %v %v with a %v mask for an output of %v was not rejected", cl.name, fa, sa, sk, so)
										}
										if err := first(func() error { return expect[T](a, ma, "operand") }, func() error { return expect[T](b, mb, "operand") }, func() error { return expect[T](o, mo, "output") }); err != nil {
											return rep.Errf("after rejected %s with mask %v: %v", cl.name, sk, err)
										}
										if fk >= 0 {
											if err := expect[T](k.(gb.Matrix[T]), mk0, "mask"); err != nil {
												return err
											}
										}
										// and the same objects still work
										cl.do(a, b, nil, o)
									}
								}
							}
						}
					}
					return nil
				})
			}
		}
	}
}
