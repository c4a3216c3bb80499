package main

import (
	"fmt"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/unaryop"
	"verif.local/mc/model"
	"verif.local/mc/rep"
)

// ---- P09: matrix product ---------------------------------------------------

// mulAll checks the method and the operator with every output format and previous content.
func mulAll[T tnum](r *rep.R, fa, fb fm, ma, mb Mat[T], ra, rb int, prev []T) error {
	want := model.Mul(ma, mb)
	a, b := mk(fa, ma, ra), mk(fb, mb, rb)
	if err := expect[T](a.Multiply(b), want, fmt.Sprintf("%v.Multiply: %v times %v", fa, ma, mb)); err != nil {
		return err
	}
	r.Step(1)
	for _, fo := range fmts(want.C) {
		for _, p := range prev {
			o := empty[T](fo, want.R, want.C)
			if p != 0 {
				for i := range want.D {
					o.Set(i/want.C, i%want.C, p)
				}
			}
			r.Step(1)
			gb.MatrixMatrixMultiply(bg, a, b, nil, o)
			if err := expect[T](o, want, fmt.Sprintf("MatrixMatrixMultiply into %v holding %v: %v times %v", fo, p, ma, mb)); err != nil {
				return err
			}
		}
	}
	return nil
}

func (t tc[T]) P09(r *rep.R) {
	t.between(r, "product")
	t.apart(r, "product")
	r.Group("pairs", "every pair of contents, every pair of operand formats, every output format, empty and full outputs")
	type sp struct {
		r, k, c int
		alpha   []T
	}
	two := []T{0, 1}
	specs := []sp{{2, 2, 2, two}, {1, 1, 1, t.alpha5()}, {2, 1, 2, []T{0, t.half()}}}
	if t.deep {
		specs = []sp{{1, 1, 1, t.alpha5()}, {2, 2, 2, []T{0, 1, t.neg1()}}, {2, 2, 2, []T{0, t.half()}}, {1, 2, 1, t.alpha5()}, {2, 1, 2, t.alpha5()}, {1, 3, 2, two}, {2, 3, 1, two}, {3, 2, 1, two}, {3, 1, 2, two}, {1, 5, 1, two}, {2, 3, 2, two}}
		if r.Thorough {
			specs = append(specs, sp{1, 3, 1, t.alpha5()[:5]}, sp{3, 2, 2, two}, sp{2, 2, 3, two}, sp{1, 7, 1, two}, sp{3, 3, 1, two}, sp{1, 3, 3, two})
		}
	}
	for _, s := range specs {
		na, nb := model.Pow(len(s.alpha), s.r*s.k), model.Pow(len(s.alpha), s.k*s.c)
		for _, fa := range fmts(s.k) {
			for _, fb := range fmts(s.c) {
				for a := 0; a < na; a++ {
					s, fa, fb, a := s, fa, fb, a
					r.Case(func() string {
						return fmt.Sprintf("mul %s %v,%v %dx%dx%d A %d of %v", t.name, fa, fb, s.r, s.k, s.c, a, s.alpha)
					}, func() error {
						ma := model.Decode(s.r, s.k, s.alpha, a)
						for b := 0; b < nb; b++ {
							if err := mulAll(r, fa, fb, ma, model.Decode(s.k, s.c, s.alpha, b), a%routes, b%routes, []T{[]T{0, 9}[b%2]}); err != nil {
								return err
							}
						}
						return nil
					})
				}
			}
		}
	}
	r.Group("unit products", "E(i,l) times E(l',j) for every i,l and l',j at a size where one line is longer than its number of elements")
	n := 4
	if t.deep {
		n = 6
		if r.Thorough {
			n = 9
		}
	}
	for _, fa := range matF {
		for _, fb := range matF {
			for e := 0; e < n*n; e++ {
				fa, fb, e := fa, fb, e
				r.Case(func() string { return fmt.Sprintf("unit %s %v,%v n=%d e=%d", t.name, fa, fb, n, e) }, func() error {
					ma := model.New[T](n, n)
					ma.D[e] = 2
					a := mk(fa, ma, 1)
					for g := 0; g < n*n; g++ {
						mb := model.New[T](n, n)
						mb.D[g] = 3
						r.Step(1)
						if err := expect[T](a.Multiply(mk(fb, mb, 1)), model.Mul(ma, mb), fmt.Sprintf("E(%d)xE(%d)", e, g)); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	r.Group("families", "degenerate, rectangular and larger sizes; every pair of families; every pair of operand formats; outputs empty and full")
	sh := [][3]int{{0, 0, 0}, {2, 0, 3}, {0, 2, 2}, {2, 2, 0}, {5, 9, 3}, {3, 5, 1}, {7, 1, 7}}
	if t.deep {
		sh = append(sh, [3]int{1, 9, 1}, [3]int{9, 9, 9}, [3]int{16, 17, 5}, [3]int{1, 65, 1}, [3]int{65, 1, 3}, [3]int{3, 33, 4}, [3]int{1, 300, 2}, [3]int{2, 300, 1}, [3]int{300, 1, 2}, [3]int{2, 1, 300})
		if r.Thorough {
			sh = append(sh, [3]int{33, 33, 33}, [3]int{64, 65, 3}, [3]int{17, 129, 2}, [3]int{65, 64, 63})
		}
	}
	for _, s := range sh {
		for _, fa := range fmts(s[1]) {
			for _, fb := range fmts(s[2]) {
				for k := 0; k < families; k++ {
					s, fa, fb, k := s, fa, fb, k
					if fa.vector() && s[1] != 1 || fb.vector() && s[2] != 1 {
						continue
					}
					r.Case(func() string { return fmt.Sprintf("mulf %s %v,%v %v k=%d", t.name, fa, fb, s, k) }, func() error {
						for l := 0; l < families; l++ {
							ma, mb := family(s[0], s[1], k, t.neg1(), t.half()), family(s[1], s[2], l, t.neg1(), T(2))
							if err := mulAll(r, fa, fb, ma, mb, (k+l)%5, k%5, []T{[]T{0, 9}[l%2]}); err != nil {
								return err
							}
						}
						return nil
					})
				}
			}
		}
	}
	r.Group("self", "a matrix times itself as the same object")
	for _, f := range matF {
		for code := 0; code < 16; code++ {
			f, code := f, code
			r.Case(func() string { return fmt.Sprintf("self %s %v %d", t.name, f, code) }, func() error {
				m := model.Decode(2, 2, []T{0, 2}, code)
				a := mk(f, m, 1)
				if err := expect[T](a.Multiply(a), model.Mul(m, m), "A.Multiply(A)"); err != nil {
					return err
				}
				for _, fo := range matF {
					o := empty[T](fo, 2, 2)
					gb.MatrixMatrixMultiply(bg, a, a, nil, o)
					r.Step(2)
					if err := expect[T](o, model.Mul(m, m), "AxA"); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}

// ---- P10: matrix-vector ----------------------------------------------------

func (t tc[T]) P10(r *rep.R) {
	t.between(r, "matvec")
	t.apart(r, "matvec")
	run := func(ma, mv Mat[T], fa, fv fm, ra, rv int, prev []T) error {
		want := model.Mul(ma, mv)
		a := mk(fa, ma, ra)
		v := mk(fv, mv, rv).(gb.Vector[T])
		for _, fo := range vecF {
			for _, p := range prev {
				for k := 0; k < 2; k++ {
					o := empty[T](fo, ma.R, 1).(gb.Vector[T])
					for i := 0; p != 0 && i < ma.R; i++ {
						o.SetVec(i, p)
					}
					r.Step(1)
					what := "MatrixVectorMultiply"
					if k == 0 {
						gb.MatrixVectorMultiply(bg, a, v, nil, o)
					} else {
						what = "VectorMatrixMultiply"
						gb.VectorMatrixMultiply(bg, v, a, nil, o)
					}
					if err := expect[T](o, want, fmt.Sprintf("%s into %v holding %v: %v times %v", what, fo, p, ma, mv)); err != nil {
						return err
					}
					for i := range want.D {
						if o.AtVec(i) != want.D[i] {
							return rep.Errf("%s AtVec(%d)", what, i)
						}
					}
				}
			}
		}
		return first(func() error { return expect[T](a, ma, "matrix operand") }, func() error { return expect[T](v, mv, "vector operand") })
	}
	r.Group("pairs", "every content of matrix and vector, every format of matrix, vector, output; empty and full outputs; both operators")
	type sp struct {
		r, k  int
		alpha []T
	}
	two := []T{0, 1}
	specs := []sp{{2, 2, two}, {1, 1, t.alpha5()}, {1, 3, two}}
	if t.deep {
		specs = []sp{{1, 1, t.alpha5()}, {2, 2, []T{0, 1, t.neg1()}}, {1, 2, t.alpha5()}, {2, 1, t.alpha5()}, {3, 2, two}, {2, 3, two}, {3, 3, two}, {1, 5, two}, {5, 1, two}}
		if r.Thorough {
			specs = append(specs, sp{2, 2, t.alpha5()}, sp{2, 3, []T{0, 1, t.neg1()}}, sp{3, 4, two}, sp{4, 3, two}, sp{1, 8, two})
		}
	}
	for _, s := range specs {
		na, nb := model.Pow(len(s.alpha), s.r*s.k), model.Pow(len(s.alpha), s.k)
		for _, fa := range fmts(s.k) {
			for a := 0; a < na; a++ {
				s, fa, a := s, fa, a
				r.Case(func() string { return fmt.Sprintf("mxv %s %v %dx%d A %d of %v", t.name, fa, s.r, s.k, a, s.alpha) }, func() error {
					ma := model.Decode(s.r, s.k, s.alpha, a)
					for b := 0; b < nb; b++ {
						for _, fv := range vecF {
							if err := run(ma, model.Decode(s.k, 1, s.alpha, b), fa, fv, a%routes, b%routes, []T{0, 9}); err != nil {
								return err
							}
						}
					}
					return nil
				})
			}
		}
	}
	r.Group("families", "larger and degenerate sizes, every pair of families")
	sh := [][2]int{{0, 0}, {0, 3}, {3, 0}, {5, 9}, {9, 5}, {7, 1}}
	if t.deep {
		sh = append(sh, [2]int{17, 17}, [2]int{1, 33}, [2]int{33, 1}, [2]int{65, 65}, [2]int{3, 129}, [2]int{129, 3})
	}
	sh = append(sh, t.long(true)...)
	for _, s := range sh {
		for _, fa := range fmts(s[1]) {
			for k := 0; k < families; k++ {
				s, fa, k := s, fa, k
				r.Case(func() string { return fmt.Sprintf("mxvf %s %v %v k=%d", t.name, fa, s, k) }, func() error {
					for l := 0; l < families; l++ {
						for _, fv := range vecF {
							if err := run(family(s[0], s[1], k, t.neg1(), t.half()), family(s[1], 1, l, t.neg1(), T(2)), fa, fv, l%5, k%5, []T{[]T{0, 9}[l%2]}); err != nil {
								return err
							}
						}
					}
					return nil
				})
			}
		}
	}
}

// ---- P11: add and subtract -------------------------------------------------

func (t tc[T]) P11(r *rep.R) {
	t.between(r, "sum")
	t.apart(r, "sum")
	add := func(x, y T) T { return x + y }
	sub := func(x, y T) T { return x - y }
	run := func(ma, mb Mat[T], fa, fb fm, ra, rb int) error {
		a, b := mk(fa, ma, ra), mk(fb, mb, rb)
		ws, wd := model.Zip(ma, mb, add), model.Zip(ma, mb, sub)
		r.Step(2)
		sum, dif := a.Add(b), a.Subtract(b)
		if err := first(
			func() error { return expect[T](sum, ws, fmt.Sprintf("%v.Add(%v): %v + %v", fa, fb, ma, mb)) },
			func() error {
				return expect[T](dif, wd, fmt.Sprintf("%v.Subtract(%v): %v - %v", fa, fb, ma, mb))
			},
			func() error { return spoil[T](sum, dif) }); err != nil {
			return err
		}
		for _, fo := range fmts(ma.C) {
			o, p := empty[T](fo, ma.R, ma.C), empty[T](fo, ma.R, ma.C)
			gb.Add(bg, a, b, nil, o)
			gb.Subtract(bg, a, b, nil, p)
			r.Step(2)
			if err := first(
				func() error { return expect[T](o, ws, fmt.Sprintf("Add(%v,%v) into %v: %v + %v", fa, fb, fo, ma, mb)) },
				func() error {
					return expect[T](p, wd, fmt.Sprintf("Subtract(%v,%v) into %v: %v - %v", fa, fb, fo, ma, mb))
				},
				func() error { return spoil[T](o, p) }); err != nil {
				return err
			}
		}
		if err := first(func() error { return expect[T](a, ma, "first operand, after writing to the results,") },
			func() error { return expect[T](b, mb, "second operand, after writing to the results,") }); err != nil {
			return err
		}
		// over one of the operands
		for al := 0; al < 2; al++ {
			for k, op := range []func(s, m, o gb.Matrix[T]){
				func(s, m, o gb.Matrix[T]) { gb.Add(bg, s, m, nil, o) },
				func(s, m, o gb.Matrix[T]) { gb.Subtract(bg, s, m, nil, o) },
			} {
				in := []gb.Matrix[T]{mk(fa, ma, ra), mk(fb, mb, rb)}
				op(in[0], in[1], in[al])
				r.Step(1)
				if err := expect[T](in[al], []Mat[T]{ws, wd}[k], fmt.Sprintf("%s(%v,%v) over operand %d: %v, %v", []string{"Add", "Subtract"}[k], fa, fb, al, ma, mb)); err != nil {
					return err
				}
				if err := expect[T](in[1-al], []Mat[T]{ma, mb}[1-al], "the other operand"); err != nil {
					return err
				}
			}
		}
		return nil
	}
	r.Group("pairs", "every pair of contents, every pair of operand formats, methods, and operators into every output format and over either operand")
	type sp struct {
		r, c  int
		alpha []T
	}
	two := []T{0, 1}
	specs := []sp{{2, 2, two}, {1, 1, t.alpha5()}, {2, 1, []T{0, 1, t.big()}}}
	if t.deep {
		specs = []sp{{1, 1, t.alpha5()}, {1, 2, t.alpha5()}, {2, 1, []T{0, 1, t.neg1(), t.half()}}, {2, 2, []T{0, 1, t.neg1()}}, {1, 4, two}, {3, 1, []T{0, 1, t.neg1()}}, {2, 3, two}, {3, 2, two}}
		if r.Thorough {
			specs = append(specs, sp{2, 2, []T{0, 1, t.neg1(), t.half()}}, sp{5, 1, two}, sp{2, 4, two}, sp{3, 3, two})
		}
	}
	for _, s := range specs {
		n := model.Pow(len(s.alpha), s.r*s.c)
		for _, fa := range fmts(s.c) {
			for _, fb := range fmts(s.c) {
				for a := 0; a < n; a++ {
					s, fa, fb, a := s, fa, fb, a
					r.Case(func() string {
						return fmt.Sprintf("add %s %v,%v %dx%d A %d of %v", t.name, fa, fb, s.r, s.c, a, s.alpha)
					}, func() error {
						ma := model.Decode(s.r, s.c, s.alpha, a)
						for b := 0; b < n; b++ {
							if err := run(ma, model.Decode(s.r, s.c, s.alpha, b), fa, fb, a%routes, b%routes); err != nil {
								return err
							}
						}
						// both operands the same object
						x := mk(fa, ma, 1)
						y, z := mk(fa, ma, 2), mk(fa, ma, 3)
						gb.Add(bg, y, y, nil, y)
						gb.Subtract(bg, z, z, nil, z)
						return first(func() error { return expect[T](x.Add(x), model.Zip(ma, ma, add), "A.Add(A)") },
							func() error { return expect[T](x.Subtract(x), model.Zip(ma, ma, sub), "A.Subtract(A)") },
							func() error { return expect[T](y, model.Zip(ma, ma, add), "A added to itself in place") },
							func() error { return expect[T](z, model.Zip(ma, ma, sub), "A subtracted from itself in place") })
					})
				}
			}
		}
	}
	r.Group("families", "degenerate and larger sizes, every pair of families and formats")
	sh := [][2]int{{0, 0}, {0, 2}, {2, 0}, {5, 9}, {9, 1}}
	if t.deep {
		sh = append(sh, [2]int{9, 9}, [2]int{17, 33}, [2]int{65, 1}, [2]int{1, 65})
		sh = append(sh, t.long(false)...)
		if r.Thorough {
			sh = append(sh, [2]int{65, 64}, [2]int{3, 129}, [2]int{129, 1})
		}
	}
	for _, s := range sh {
		for _, fa := range fmts(s[1]) {
			for _, fb := range fmts(s[1]) {
				for k := 0; k < families; k++ {
					s, fa, fb, k := s, fa, fb, k
					r.Case(func() string { return fmt.Sprintf("addf %s %v,%v %v k=%d", t.name, fa, fb, s, k) }, func() error {
						for l := 0; l < families; l++ {
							if err := run(family(s[0], s[1], k, t.neg1(), t.half()), family(s[0], s[1], l, t.half(), T(1)), fa, fb, (k+l)%5, l%5); err != nil {
								return err
							}
						}
						return nil
					})
				}
			}
		}
	}
}

// ---- P12: scalar and negation ----------------------------------------------

func (t tc[T]) P12(r *rep.R) {
	t.between(r, "scaling")
	t.apart(r, "scaling")
	alphas := []T{0, 1, t.neg1(), 2, t.half(), t.big(), t.frac(), t.tiny(), t.neg1() - 1, t.lowest(), t.top()}
	run := func(m Mat[T], f fm, route int) error {
		a := mk(f, m, route)
		for _, al := range alphas {
			r.Step(1)
			p, q := a.Scalar(al), gb.Scalar(bg, a, al)
			if err := expect[T](p, model.Map(m, func(v T) T { return v * al }), fmt.Sprintf("%v.Scalar(%v) of %v", f, al, m)); err != nil {
				return err
			}
			if err := expect[T](q, model.Map(m, func(v T) T { return v * al }), fmt.Sprintf("Scalar(%v,%v) of %v", f, al, m)); err != nil {
				return err
			}
			if err := spoil[T](p, q); err != nil {
				return err
			}
		}
		want := model.Map(m, func(v T) T { return -v })
		r.Step(1)
		neg := a.Negative()
		if err := expect(neg, want, fmt.Sprintf("%v.Negative() of %v", f, m)); err != nil {
			return err
		}
		spoil(neg)
		for _, fo := range fmts(m.C) {
			o := empty[T](fo, m.R, m.C)
			r.Step(1)
			gb.Negative(bg, a, nil, o)
			if err := expect[T](o, want, fmt.Sprintf("Negative of %v %v into %v", f, m, fo)); err != nil {
				return err
			}
		}
		x := mk(f, m, (route+1)%routes)
		gb.Negative(bg, x, nil, x)
		r.Step(1)
		if err := expect[T](x, want, fmt.Sprintf("Negative of %v %v in place", f, m)); err != nil {
			return err
		}
		return expect[T](a, m, "source")
	}
	r.Group("contents", "every content, format and scalar")
	type sp struct {
		r, c  int
		alpha []T
	}
	specs := []sp{{2, 2, []T{0, 1, t.half()}}, {1, 2, append(t.alpha5(), t.lowest(), t.top())}, {2, 1, append(t.alpha5(), t.lowest(), t.top())}}
	if t.deep {
		specs = []sp{{2, 2, append(t.alpha5(), t.lowest())}, {2, 3, []T{0, 1, t.half()}}, {3, 2, []T{0, 1, t.half()}}, {4, 1, t.alpha5()}, {1, 4, []T{0, 1, t.half()}}, {3, 3, []T{0, t.half()}}, {7, 1, []T{0, t.half()}}}
		if r.Thorough {
			specs = append(specs, sp{3, 3, []T{0, 1, t.half()}}, sp{1, 10, []T{0, t.half()}}, sp{10, 1, []T{0, t.half()}}, sp{3, 4, []T{0, t.half()}})
		}
	}
	for _, s := range specs {
		for _, f := range fmts(s.c) {
			for code := 0; code < model.Pow(len(s.alpha), s.r*s.c); code++ {
				s, f, code := s, f, code
				r.Case(func() string {
					return fmt.Sprintf("scale %s %v %dx%d content %d of %v", t.name, f, s.r, s.c, code, s.alpha)
				}, func() error {
					return run(model.Decode(s.r, s.c, s.alpha, code), f, code%routes)
				})
			}
		}
	}
	r.Group("families", "degenerate and larger sizes")
	for _, s := range append([][2]int{{0, 0}, {0, 2}, {2, 0}, {5, 9}, {9, 1}, {17, 17}, {65, 1}, {1, 65}, {33, 3}}, t.long(true)...) {
		for _, f := range fmts(s[1]) {
			for k := 0; k < families; k++ {
				s, f, k := s, f, k
				r.Case(func() string { return fmt.Sprintf("scalef %s %v %v k=%d", t.name, f, s, k) }, func() error {
					return run(family(s[0], s[1], k, t.neg1(), t.half()), f, k%5)
				})
			}
		}
	}
}

// ---- P13: transpose --------------------------------------------------------

func (t tc[T]) P13(r *rep.R) {
	t.between(r, "transpose")
	t.apart(r, "transpose")
	run := func(m Mat[T], f fm, route int) error {
		want := model.Transpose(m)
		a := mkL[T](f, m, route)
		tr := a.Transpose()
		r.Step(2)
		if err := expect(tr, want, fmt.Sprintf("%v.Transpose() of %v", f, m)); err != nil {
			return err
		}
		back := tr.Transpose()
		if err := expect(back, m, fmt.Sprintf("transposed twice %v %v", f, m)); err != nil {
			return err
		}
		spoil(back)
		if err := expect(tr, want, "the transpose, after writing to its own transpose,"); err != nil {
			return err
		}
		spoil(tr)
		if n, ok := a.(gb.Matrix[T]); ok {
			r.Step(2)
			if err := first(func() error {
				return expect[T](gb.TransposeToCSR(bg, n), want, fmt.Sprintf("TransposeToCSR(%v %v)", f, m))
			},
				func() error {
					return expect[T](gb.TransposeToCSC(bg, n), want, fmt.Sprintf("TransposeToCSC(%v %v)", f, m))
				}); err != nil {
				return err
			}
		}
		for _, fo := range fmtsL(m.R) {
			if fo.vector() && m.R != 1 {
				continue
			}
			o := emptyL[T](fo, m.C, m.R)
			r.Step(1)
			gb.Transpose[T](bg, a, nil, o)
			if err := expect(o, want, fmt.Sprintf("Transpose of %v %v into %v", f, m, fo)); err != nil {
				return err
			}
			spoil(o)
		}
		return expect(a, m, "source, after writing to its transposes,")
	}
	r.Group("contents", "every content, source format and output format")
	type sp struct {
		r, c  int
		alpha []T
	}
	specs := []sp{{2, 2, []T{0, 1, t.big()}}, {2, 1, t.alpha5()}, {1, 3, []T{0, 1}}, {2, 3, []T{0, 1}}}
	if t.deep {
		specs = []sp{{2, 2, t.alpha5()}, {2, 3, []T{0, 1, t.big()}}, {3, 2, []T{0, 1, t.big()}}, {4, 1, t.alpha5()}, {1, 4, []T{0, 1, t.big()}}, {3, 3, []T{0, 1}}}
		if r.Thorough {
			specs = append(specs, sp{3, 3, []T{0, 1, t.big()}}, sp{1, 10, []T{0, 1}}, sp{10, 1, []T{0, 1}}, sp{3, 4, []T{0, 1}}, sp{4, 3, []T{0, 1}})
		}
	}
	if v := t.special(); v != nil {
		specs = append(specs, sp{2, 2, v}, sp{3, 1, v})
	}
	for _, s := range specs {
		for _, f := range fmtsL(s.c) {
			for code := 0; code < model.Pow(len(s.alpha), s.r*s.c); code++ {
				s, f, code := s, f, code
				r.Case(func() string {
					return fmt.Sprintf("tr %s %v %dx%d content %d of %v", t.name, f, s.r, s.c, code, s.alpha)
				}, func() error {
					return run(model.Decode(s.r, s.c, s.alpha, code), f, code%routes)
				})
			}
		}
	}
	r.Group("families", "degenerate and larger sizes")
	for _, s := range append([][2]int{{0, 0}, {0, 2}, {2, 0}, {5, 9}, {9, 1}, {17, 17}, {65, 1}, {1, 65}, {33, 3}, {3, 33}}, t.long(true)...) {
		for _, f := range fmtsL(s[1]) {
			for k := 0; k < families; k++ {
				s, f, k := s, f, k
				r.Case(func() string { return fmt.Sprintf("trf %s %v %v k=%d", t.name, f, s, k) }, func() error {
					return run(family(s[0], s[1], k, t.neg1(), t.half()), f, k%5)
				})
			}
		}
	}
}

func p13bool(r *rep.R) {
	r.Group("contents", "")
	for _, s := range append(shapes(1, 3), [2]int{2, 5}, [2]int{7, 1}) {
		for code := 0; code < model.Pow(2, s[0]*s[1]); code++ {
			s, code := s, code
			r.Case(func() string { return fmt.Sprintf("tr bool %v content %d", s, code) }, func() error {
				m := model.Decode(s[0], s[1], []bool{false, true}, code)
				want := model.Transpose(m)
				xs := []gb.MatrixLogical[bool]{boolMat(m)}
				if s[1] == 1 {
					xs = append(xs, boolVec(m))
				}
				for _, x := range xs {
					r.Step(2)
					o := gb.NewDenseMatrix[bool](s[1], s[0])
					gb.Transpose[bool](bg, x, nil, o)
					if err := first(func() error { return expect(x.Transpose(), want, "Transpose") },
						func() error { return expect(x.Transpose().Transpose(), m, "Transpose twice") },
						func() error { return expect[bool](o, want, "operator Transpose") },
						func() error { return expect(x, m, "source") }); err != nil {
						return err
					}
					if s[0] == 1 {
						v := gb.NewDenseVector[bool](s[1])
						gb.Transpose[bool](bg, x, nil, v)
						if err := expect[bool](v, want, "operator Transpose into vector"); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
}

// ---- P14: element-wise -----------------------------------------------------

// eAddOK checks the union. An operand that is the output is there already and the others are stored
// into it in order, so where both have an element it is the second one's, or, into the second, the first one's.
func eAddOK[T tnum](o gb.Matrix[T], ma, mb Mat[T], intoSecond bool, what string) error {
	if o.Rows() != ma.R || o.Columns() != ma.C {
		return rep.Errf("%s: shape %dx%d", what, o.Rows(), o.Columns())
	}
	over, under := mb, ma
	if intoSecond {
		over, under = ma, mb
	}
	for i := range ma.D {
		v, w := o.At(i/ma.C, i%ma.C), over.D[i]
		if w == 0 {
			w = under.D[i]
		}
		if v != w {
			return rep.Errf("%s: cell (%d,%d) = %v, want %v; operands %v and %v", what, i/ma.C, i%ma.C, v, w, ma, mb)
		}
	}
	return nil
}

func (t tc[T]) P14(r *rep.R) {
	t.between(r, "element-wise")
	t.apart(r, "element-wise")
	mul := func(x, y T) T { return x * y }
	// alias: 0 none, 1 output is s, 2 output is m, 3 s is m, 4 all the same
	run := func(ma, mb Mat[T], fa, fb, fo fm, route, alias int, vec bool) error {
		if alias >= 3 {
			mb = ma
		}
		build := func() (s, m, o gb.Matrix[T]) {
			s = mk(fa, ma, route)
			m = mk(fb, mb, (route+1)%routes)
			o = empty[T](fo, ma.R, ma.C)
			switch alias {
			case 1:
				o = s
			case 2:
				o = m
			case 3:
				m = s
			case 4:
				m, o = s, s
			}
			return
		}
		what := func(n string) string {
			return fmt.Sprintf("%s(%v,%v) into %v, aliasing %d: %v, %v", n, fa, fb, fo, alias, ma, mb)
		}
		s, m, o := build()
		r.Step(1)
		if vec {
			gb.ElementWiseVectorMultiply(bg, s.(gb.Vector[T]), m.(gb.Vector[T]), nil, o.(gb.Vector[T]))
		} else {
			gb.ElementWiseMatrixMultiply(bg, s, m, nil, o)
		}
		if err := expect[T](o, model.Zip(ma, mb, mul), what("element-wise multiply")); err != nil {
			return err
		}
		if s != o {
			if err := expect[T](s, ma, "first operand"); err != nil {
				return err
			}
		}
		if m != o {
			if err := expect[T](m, mb, "second operand"); err != nil {
				return err
			}
		}
		s, m, o = build()
		r.Step(1)
		if vec {
			gb.ElementWiseVectorAdd(bg, s.(gb.Vector[T]), m.(gb.Vector[T]), nil, o.(gb.Vector[T]))
		} else {
			gb.ElementWiseMatrixAdd(bg, s, m, nil, o)
		}
		return eAddOK(o, ma, mb, alias == 2, what("element-wise add"))
	}
	all := func(ma, mb Mat[T], fa, fb fm, route int) error {
		for _, vec := range []bool{false, true} {
			if vec && !(fa.vector() && fb.vector()) {
				continue
			}
			fos := fmts(ma.C)
			if vec {
				fos = vecF
			}
			for i, fo := range fos {
				if err := run(ma, mb, fa, fb, fo, route, 0, vec); err != nil {
					return err
				}
				if fa == fb && i == 0 {
					for _, al := range []int{3, 4} {
						if err := run(ma, mb, fa, fb, fo, route, al, vec); err != nil {
							return err
						}
					}
				}
			}
			for _, al := range []int{1, 2} {
				if err := run(ma, mb, fa, fb, fa, route, al, vec); err != nil {
					return err
				}
			}
		}
		return nil
	}
	r.Group("pairs", "every pair of contents and formats, every output format, every aliasing of output and operands")
	type sp struct {
		r, c  int
		alpha []T
	}
	two := []T{0, 2}
	specs := []sp{{1, 1, t.alpha5()}, {2, 2, two}, {2, 1, []T{0, 2, 3}}, {1, 2, []T{0, 2, 3}}}
	if t.deep {
		specs = []sp{{1, 1, t.alpha5()}, {1, 2, []T{0, 2, 3, t.half()}}, {2, 1, []T{0, 2, 3, t.half()}}, {2, 2, []T{0, 2, t.neg1()}}, {1, 3, []T{0, 2, 3}}, {3, 1, []T{0, 2, 3}}, {2, 3, two}, {3, 2, two}}
		if r.Thorough {
			specs = append(specs, sp{2, 2, []T{0, 2, t.neg1(), t.half()}}, sp{5, 1, two}, sp{2, 4, two}, sp{4, 2, two}, sp{3, 3, two})
		}
	}
	for _, s := range specs {
		n := model.Pow(len(s.alpha), s.r*s.c)
		for _, fa := range fmts(s.c) {
			for _, fb := range fmts(s.c) {
				for a := 0; a < n; a++ {
					s, fa, fb, a := s, fa, fb, a
					r.Case(func() string {
						return fmt.Sprintf("ewise %s %v,%v %dx%d A %d of %v", t.name, fa, fb, s.r, s.c, a, s.alpha)
					}, func() error {
						ma := model.Decode(s.r, s.c, s.alpha, a)
						for b := 0; b < n; b++ {
							if err := all(ma, model.Decode(s.r, s.c, s.alpha, b), fa, fb, (a+b)%routes); err != nil {
								return err
							}
						}
						return nil
					})
				}
			}
		}
	}
	r.Group("families", "degenerate and larger sizes, every pair of families")
	sh := [][2]int{{0, 0}, {0, 2}, {2, 0}, {5, 9}, {9, 1}}
	if t.deep {
		sh = append(sh, [2]int{9, 9}, [2]int{33, 3}, [2]int{65, 1}, [2]int{1, 65})
	}
	sh = append(sh, t.long(false)...)
	for _, s := range sh {
		for _, fa := range fmts(s[1]) {
			for _, fb := range fmts(s[1]) {
				for k := 0; k < families; k++ {
					s, fa, fb, k := s, fa, fb, k
					r.Case(func() string { return fmt.Sprintf("ewisef %s %v,%v %v k=%d", t.name, fa, fb, s, k) }, func() error {
						for l := 0; l < families; l++ {
							if err := all(family(s[0], s[1], k, t.neg1(), t.half()), family(s[0], s[1], l, t.half(), T(2)), fa, fb, (k+l)%5); err != nil {
								return err
							}
						}
						return nil
					})
				}
			}
		}
	}
}

// ---- P15: apply ------------------------------------------------------------

func (t tc[T]) P15(r *rep.R) {
	t.between(r, "apply")
	t.apart(r, "apply")
	t.nestedApply(r)
	fs := map[string]func(T) T{
		"double":   func(v T) T { return v + v },
		"negate":   func(v T) T { return -v },
		"square":   func(v T) T { return v * v },
		"zero":     func(v T) T { return 0 },
		"identity": func(v T) T { return v },
		"decrement ones": func(v T) T {
			if v == 1 {
				return 0
			}
			return v
		},
		"flag": func(v T) T {
			if v != 0 {
				return 1
			}
			return 0
		},
	}
	names := []string{"double", "negate", "square", "zero", "identity", "decrement ones", "flag"}
	run := func(m Mat[T], f fm, route int) error {
		for _, n := range names {
			u := unaryop.NewUnaryOp(fs[n])
			want := model.Map(m, fs[n])
			a := mk(f, m, route)
			for _, fo := range fmts(m.C) {
				o := empty[T](fo, m.R, m.C)
				r.Step(1)
				gb.Apply[T](bg, a, nil, u, o)
				if err := first(func() error { return expect[T](o, want, fmt.Sprintf("Apply(%s) of %v %v into %v", n, f, m, fo)) },
					func() error { return expect[T](a, m, "source of Apply") }); err != nil {
					return err
				}
			}
			r.Step(1)
			gb.Apply[T](bg, a, nil, u, a)
			if err := expect[T](a, want, fmt.Sprintf("Apply(%s) in place on %v %v", n, f, m)); err != nil {
				return err
			}
		}
		return nil
	}
	r.Group("contents", "every content, format, output format and operator; in place and separate")
	type sp struct {
		r, c  int
		alpha []T
	}
	specs := []sp{{2, 2, []T{0, 1, t.half()}}, {2, 1, t.alpha5()}, {1, 3, []T{0, 1, 2}}}
	if t.deep {
		specs = []sp{{2, 2, t.alpha5()}, {2, 3, []T{0, 1, t.half()}}, {3, 2, []T{0, 1, t.half()}}, {4, 1, []T{0, 1, t.half()}}, {1, 4, []T{0, 1, t.half()}}, {7, 1, []T{0, 1}}, {1, 7, []T{0, 1}}}
		if r.Thorough {
			specs = append(specs, sp{3, 3, []T{0, 1, t.half()}}, sp{3, 4, []T{0, 1}}, sp{10, 1, []T{0, 1}})
		}
	}
	for _, s := range specs {
		for _, f := range fmts(s.c) {
			for code := 0; code < model.Pow(len(s.alpha), s.r*s.c); code++ {
				s, f, code := s, f, code
				r.Case(func() string {
					return fmt.Sprintf("apply %s %v %dx%d content %d of %v", t.name, f, s.r, s.c, code, s.alpha)
				}, func() error {
					return run(model.Decode(s.r, s.c, s.alpha, code), f, code%routes)
				})
			}
		}
	}
	r.Group("families", "degenerate and larger sizes")
	for _, s := range append([][2]int{{0, 0}, {0, 2}, {2, 0}, {5, 9}, {9, 1}, {17, 17}, {65, 1}, {1, 65}, {33, 3}, {3, 33}}, t.long(true)...) {
		for _, f := range fmts(s[1]) {
			for k := 0; k < families; k++ {
				s, f, k := s, f, k
				r.Case(func() string { return fmt.Sprintf("applyf %s %v %v k=%d", t.name, f, s, k) }, func() error {
					return run(family(s[0], s[1], k, t.neg1(), t.half()), f, k%5)
				})
			}
		}
	}
}

// ---- P16: masks ------------------------------------------------------------

type maskedOp[T tnum] struct {
	name string
	// nin: number of operands; out: output shape
	nin    int
	vecOut bool
	square bool
	do     func(in []gb.Matrix[T], mask gb.Mask, out gb.Matrix[T])
	alias  int // 1: the output is operand 0, 2: operand 1, -1: everything must be a vector
}

func maskedOps[T tnum]() []maskedOp[T] {
	dbl := unaryop.NewUnaryOp(func(v T) T { return v + v })
	kill := unaryop.NewUnaryOp(func(v T) T { return 0 })
	type M = gb.Matrix[T]
	v := func(m M) gb.Vector[T] { return m.(gb.Vector[T]) }
	return []maskedOp[T]{
		{"MatrixMatrixMultiply", 2, false, true, func(i []M, k gb.Mask, o M) { gb.MatrixMatrixMultiply(bg, i[0], i[1], k, o) }, 0},
		{"Add", 2, false, false, func(i []M, k gb.Mask, o M) { gb.Add(bg, i[0], i[1], k, o) }, 0},
		{"Subtract", 2, false, false, func(i []M, k gb.Mask, o M) { gb.Subtract(bg, i[0], i[1], k, o) }, 0},
		{"ElementWiseMatrixMultiply", 2, false, false, func(i []M, k gb.Mask, o M) { gb.ElementWiseMatrixMultiply(bg, i[0], i[1], k, o) }, 0},
		{"ElementWiseMatrixAdd", 2, false, false, func(i []M, k gb.Mask, o M) { gb.ElementWiseMatrixAdd(bg, i[0], i[1], k, o) }, 0},
		{"ElementWiseMatrixMultiply into first", 2, false, false, func(i []M, k gb.Mask, o M) { gb.ElementWiseMatrixMultiply(bg, i[0], i[1], k, o) }, 1},
		{"ElementWiseMatrixMultiply into second", 2, false, false, func(i []M, k gb.Mask, o M) { gb.ElementWiseMatrixMultiply(bg, i[0], i[1], k, o) }, 2},
		{"ElementWiseMatrixAdd into first", 2, false, false, func(i []M, k gb.Mask, o M) { gb.ElementWiseMatrixAdd(bg, i[0], i[1], k, o) }, 1},
		{"ElementWiseMatrixAdd into second", 2, false, false, func(i []M, k gb.Mask, o M) { gb.ElementWiseMatrixAdd(bg, i[0], i[1], k, o) }, 2},
		{"Add into first", 2, false, false, func(i []M, k gb.Mask, o M) { gb.Add(bg, i[0], i[1], k, o) }, 1},
		{"Add into second", 2, false, false, func(i []M, k gb.Mask, o M) { gb.Add(bg, i[0], i[1], k, o) }, 2},
		{"Subtract into first", 2, false, false, func(i []M, k gb.Mask, o M) { gb.Subtract(bg, i[0], i[1], k, o) }, 1},
		{"Subtract into second", 2, false, false, func(i []M, k gb.Mask, o M) { gb.Subtract(bg, i[0], i[1], k, o) }, 2},
		{"Negative in place", 1, false, false, func(i []M, k gb.Mask, o M) { gb.Negative(bg, i[0], k, o) }, 1},
		{"ElementWiseVectorMultiply", 2, false, false, func(i []M, k gb.Mask, o M) { gb.ElementWiseVectorMultiply(bg, v(i[0]), v(i[1]), k, v(o)) }, -1},
		{"ElementWiseVectorAdd", 2, false, false, func(i []M, k gb.Mask, o M) { gb.ElementWiseVectorAdd(bg, v(i[0]), v(i[1]), k, v(o)) }, -1},
		{"Apply", 1, false, false, func(i []M, k gb.Mask, o M) { gb.Apply[T](bg, i[0], k, dbl, o) }, 0},
		{"Apply in place", 1, false, false, func(i []M, k gb.Mask, o M) { gb.Apply[T](bg, i[0], k, dbl, o) }, 1},
		{"Apply zero in place", 1, false, false, func(i []M, k gb.Mask, o M) { gb.Apply[T](bg, i[0], k, kill, o) }, 1},
		{"Negative", 1, false, false, func(i []M, k gb.Mask, o M) { gb.Negative(bg, i[0], k, o) }, 0},
		{"Transpose", 1, false, true, func(i []M, k gb.Mask, o M) { gb.Transpose[T](bg, i[0], k, o) }, 0},
		{"MatrixVectorMultiply", 2, true, true, func(i []M, k gb.Mask, o M) { gb.MatrixVectorMultiply(bg, i[0], v(i[1]), k, v(o)) }, 0},
		{"VectorMatrixMultiply", 2, true, true, func(i []M, k gb.Mask, o M) { gb.VectorMatrixMultiply(bg, v(i[1]), i[0], k, v(o)) }, 0},
	}
}

// checkMask runs one masked operation and compares with the unmasked run from the same state.
func checkMask[T tnum](r *rep.R, o maskedOp[T], ms []Mat[T], fs []fm, prev Mat[T], fo fm, mask func() gb.Mask, truth func(i int) bool, desc string) error {
	run := func(k gb.Mask) (Mat[T], error) {
		in := make([]gb.Matrix[T], len(ms))
		for i := range ms {
			in[i] = mk(fs[i], ms[i], 1)
		}
		var out gb.Matrix[T]
		if o.alias > 0 {
			out = in[o.alias-1]
		} else {
			out = mk(fo, prev, 3)
		}
		o.do(in, k, out)
		for i := range in {
			if in[i] != out {
				if err := expect[T](in[i], ms[i], "operand"); err != nil {
					return prev, err
				}
			}
		}
		return read[T](out), nil
	}
	before := prev
	if o.alias > 0 {
		before = ms[o.alias-1]
	}
	r.Step(2)
	plain, err := run(nil)
	if err != nil {
		return rep.Errf("%s unmasked: %v", o.name, err)
	}
	k := mask()
	got, err := run(k)
	if err != nil {
		return rep.Errf("%s masked: %v", o.name, err)
	}
	for i := range got.D {
		want := plain.D[i]
		if truth(i) {
			want = before.D[i]
		}
		if !model.Same(got.D[i], want) {
			return rep.Errf("%s with mask %s: operands %v, output before %v, after %v; cell %d: want %v (unmasked result %v)", o.name, desc, ms, before, got, i, want, plain)
		}
	}
	return nil
}

func (t tc[T]) P16(r *rep.R) {
	t.between(r, "mask")
	t.apart(r, "mask")
	t.nestedMask(r)
	r.Group("operators", "every masked operator, every mask content over {0,1,-1} and mask format, operand and output formats, several operand contents and a nonempty output; against the unmasked run")
	n1 := t.neg1()
	type sp struct{ r, c int }
	specs := []sp{{2, 2}, {2, 1}, {1, 3}}
	if t.deep {
		specs = []sp{{1, 1}, {2, 2}, {2, 3}, {3, 1}, {1, 3}}
		if r.Thorough {
			specs = append(specs, sp{3, 2}, sp{5, 1}, sp{3, 3})
		}
	}
	for _, s := range specs {
		for oi, o := range maskedOps[T]() {
			_ = oi
			so := [2]int{s.r, s.c}
			if o.square && s.r != s.c && o.name != "Transpose" && !o.vecOut {
				continue
			}
			if o.vecOut {
				if s.r != s.c {
					continue
				}
				so = [2]int{s.r, 1}
			}
			if o.name == "Transpose" {
				so = [2]int{s.c, s.r}
			}
			alpha := []T{0, 1, n1}
			if so[0]*so[1] > 4 {
				alpha = []T{0, n1}
			}
			if o.alias < 0 && s.c != 1 {
				continue
			}
			for _, fa := range fmts(s.c) {
				if o.alias < 0 && !fa.vector() {
					continue
				}
				fos := fmts(so[1])
				if o.vecOut || o.alias < 0 {
					fos = vecF
				}
				for _, fo := range fos {
					if o.alias > 0 && fo != fos[0] {
						continue
					}
					for _, fk := range fmts(so[1]) {
						s, o, fa, fo, fk, alpha := s, o, fa, fo, fk, alpha
						r.Case(func() string {
							return fmt.Sprintf("mask %s %s %v->%v mask %v %dx%d", t.name, o.name, fa, fo, fk, s.r, s.c)
						}, func() error {
							masks := model.Pow(len(alpha), so[0]*so[1])
							for variant := 0; variant < 4; variant++ {
								ka, kb := []int{1, 6, 2, 8}[variant], []int{6, 1, 4, 5}[variant]
								ms := []Mat[T]{family(s.r, s.c, ka, n1, T(2)), family(s.r, s.c, kb, T(3), n1)}
								fs := []fm{fa, fmts(s.c)[variant%len(fmts(s.c))]}
								if o.alias < 0 {
									fs[1] = vecF[variant%2]
								}
								if o.vecOut {
									ms[1] = family(s.c, 1, kb, T(3), n1)
									fs[1] = vecF[variant%2]
								}
								ms, fs = ms[:o.nin], fs[:o.nin]
								prev := family(so[0], so[1], []int{1, 8, 0, 2}[variant], T(7), T(5))
								if variant == 0 {
									prev = model.Map(prev, func(v T) T { return v + 40 })
								}
								for k := 0; k < masks; k++ {
									mm := model.Decode(so[0], so[1], alpha, k)
									if err := checkMask(r, o, ms, fs, prev, fo, func() gb.Mask { return mk(fk, mm, k%routes) }, func(i int) bool { return mm.D[i] != 0 }, fmt.Sprintf("%v %v", fk, mm)); err != nil {
										return err
									}
								}
								if err := checkMask(r, o, ms, fs, prev, fo, func() gb.Mask { return gb.NewEmptyMask(so[0], so[1]) }, func(int) bool { return false }, "empty mask"); err != nil {
									return err
								}
							}
							return nil
						})
					}
				}
			}
		}
	}
	r.Group("mask is an operand", "the mask is the same object as an operand (not the output)")
	for _, o := range maskedOps[T]() {
		if o.alias != 0 || o.vecOut {
			continue
		}
		for _, f := range matF {
			for code := 0; code < 81; code++ {
				if !t.deep && code%4 != 0 {
					continue
				}
				o, f, code := o, f, code
				r.Case(func() string { return fmt.Sprintf("maskop %s %s %v %d", t.name, o.name, f, code) }, func() error {
					m := model.Decode(2, 2, []T{0, 1, n1}, code)
					m2 := family(2, 2, 1, n1, T(2))
					for which := 0; which < o.nin; which++ {
						build := func() ([]gb.Matrix[T], gb.Matrix[T]) {
							in := []gb.Matrix[T]{mk(f, m2, 1), mk(f, m2, 1)}
							in[which] = mk(f, m, 1)
							return in[:o.nin], mk(fDEN, family(2, 2, 1, n1, T(1)), 1)
						}
						in, plain := build()
						before := read[T](plain)
						o.do(in, nil, plain)
						in, out := build()
						o.do(in, in[which], out)
						r.Step(2)
						for i := range m.D {
							want := plain.At(i/2, i%2)
							if m.D[i] != 0 {
								want = before.D[i]
							}
							if out.At(i/2, i%2) != want {
								return rep.Errf("%s masked by its own operand %d = %v: cell %d is %v, want %v", o.name, which, m, i, out.At(i/2, i%2), want)
							}
						}
						if err := expect[T](in[which], m, "mask"); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	r.Group("one operand twice", "both operands are one object, and the output may be it as well: every symmetric and other content over {0, 1, -1, 2} thinned, every mask over 2x2 and mask format")
	twice := []maskedOp[T]{}
	for _, o := range maskedOps[T]() {
		if o.nin == 2 && !o.vecOut {
			twice = append(twice, o)
		}
	}
	for _, o := range twice {
		for _, f := range fmts(map[bool]int{true: 1, false: 2}[o.alias < 0]) {
			if o.alias < 0 && !f.vector() {
				continue
			}
			for fk := range matF {
				o, f, fk := o, f, matF[fk]
				r.Case(func() string { return fmt.Sprintf("twice %s %s %v mask %v", t.name, o.name, f, fk) }, func() error {
					rows, cols, step := 2, 2, 1
					if o.alias < 0 {
						rows, cols = 4, 1
					}
					if !t.deep {
						step = 5
					}
					vals := []T{0, 1, n1, 2}
					for code := 0; code < 256; code += step {
						ms := model.Decode(rows, cols, vals, code)
						prev := family(rows, cols, []int{1, 0}[code%2], T(7), T(5))
						for k := 0; k < 16; k++ {
							mm := model.Decode(rows, cols, []T{0, n1}, k)
							run := func(x gb.Mask) (Mat[T], error) {
								a := mk(f, ms, 1)
								out := a
								if o.alias <= 0 {
									out = mk(f, prev, 3)
								}
								o.do([]gb.Matrix[T]{a, a}, x, out)
								if out != a {
									if err := expect[T](a, ms, "operand"); err != nil {
										return prev, err
									}
								}
								return read[T](out), nil
							}
							r.Step(2)
							plain, err := run(nil)
							if err != nil {
								return err
							}
							got, err := run(mk(fk, mm, 1))
							if err != nil {
								return err
							}
							before := prev
							if o.alias > 0 {
								before = ms
							}
							for i := range got.D {
								want := plain.D[i]
								if mm.D[i] != 0 {
									want = before.D[i]
								}
								if !model.Same(got.D[i], want) {
									return rep.Errf("%s of %v with itself, mask %v: output before %v, after %v; cell %d: want %v", o.name, ms, mm, before, got, i, want)
								}
							}
						}
					}
					return nil
				})
			}
		}
	}
	r.Group("element", "Element is true exactly at nonzero cells, for every content, format and type")
	for _, s := range [][2]int{{2, 2}, {3, 1}, {1, 3}} {
		for _, f := range fmts(s[1]) {
			for code := 0; code < model.Pow(len(t.alpha5()), s[0]*s[1]); code++ {
				s, f, code := s, f, code
				r.Case(func() string { return fmt.Sprintf("element %s %v %v %d", t.name, f, s, code) }, func() error {
					m := model.Decode(s[0], s[1], t.alpha5(), code)
					x := mk(f, m, code%routes)
					for i := range m.D {
						r.Step(1)
						if x.Element(i/s[1], i%s[1]) != (m.D[i] != 0) {
							return rep.Errf("Element(%d,%d) = %v for %v", i/s[1], i%s[1], m.D[i] == 0, m.D[i])
						}
					}
					return expect[T](x, m, "mask after reading")
				})
			}
		}
	}
	r.Group("large masks", "sizes to 65, mask families")
	for _, s := range append([][2]int{{5, 9}, {9, 1}, {33, 3}, {65, 1}}, t.long(false)...) {
		if !t.deep && s[0] > 9 {
			continue
		}
		for _, o := range maskedOps[T]() {
			if o.square {
				continue
			}
			for _, f := range fmts(s[1]) {
				if o.alias < 0 && !f.vector() {
					continue
				}
				for _, fk := range fmts(s[1]) {
					s, o, f, fk := s, o, f, fk
					r.Case(func() string { return fmt.Sprintf("maskf %s %s %v mask %v %v", t.name, o.name, f, fk, s) }, func() error {
						for k := 0; k < families; k++ {
							mm := family(s[0], s[1], k, n1, t.half())
							ms := []Mat[T]{family(s[0], s[1], 6, n1, T(2)), family(s[0], s[1], 8, T(3), n1)}[:o.nin]
							if err := checkMask(r, o, ms, []fm{f, f}[:o.nin], family(s[0], s[1], 1, T(7), T(5)), f, func() gb.Mask { return mk(fk, mm, k%routes) }, func(i int) bool { return mm.D[i] != 0 }, "family"); err != nil {
								return err
							}
						}
						return nil
					})
				}
			}
		}
	}
	r.Group("rectangular", "products and transposes whose operands, output and mask are not square: every mask content for outputs of up to 6 (thorough 9) cells, and mask families to 65 rows or 260 columns")
	tri := [][3]int{{1, 2, 3}, {3, 2, 1}, {2, 3, 3}, {3, 1, 2}, {2, 1, 2}, {1, 1, 6}, {6, 2, 1}, {5, 9, 3}, {3, 5, 9}}
	if t.deep {
		tri = append(tri, [3]int{9, 3, 17}, [3]int{17, 3, 9}, [3]int{65, 2, 3}, [3]int{2, 3, 65}, [3]int{3, 70, 5}, [3]int{2, 2, 130}, [3]int{130, 2, 2})
	}
	if t.name == "float64" {
		tri = append(tri, [3]int{1, 1, 260}, [3]int{260, 1, 1}, [3]int{33, 2, 65}, [3]int{70, 1, 70})
		if r.Thorough {
			tri = append(tri, [3]int{3, 2, 3}, [3]int{130, 2, 130}, [3]int{2, 2, 520})
		}
	}
	for ti, s := range tri {
		for _, o := range maskedOps[T]() {
			if !o.square {
				continue
			}
			shapes, so := [][2]int{{s[0], s[1]}, {s[1], s[2]}}, [2]int{s[0], s[2]}
			if o.nin == 1 {
				shapes, so = [][2]int{{s[2], s[0]}}, [2]int{s[0], s[2]}
			}
			if o.vecOut {
				shapes, so = [][2]int{{s[0], s[2]}, {s[2], 1}}, [2]int{s[0], 1}
			}
			for fi, f := range matF {
				for _, fk := range fmts(so[1]) {
					s, o, f, fi, fk, ti := s, o, f, fi, fk, ti
					if so[0]*so[1] > 100 && fi != ti%3 && !r.Thorough {
						continue
					}
					r.Case(func() string { return fmt.Sprintf("rectangular %s %s %v mask %v %v", t.name, o.name, f, fk, s) }, func() error {
						ms := make([]Mat[T], o.nin)
						fs := make([]fm, o.nin)
						for i := range ms {
							ms[i] = family(shapes[i][0], shapes[i][1], []int{6, 8}[i], n1, T(2))
							fs[i] = f
							if shapes[i][1] == 1 && o.vecOut && i == 1 {
								fs[i] = vecF[fi%2]
							} else if i == 1 {
								fs[i] = matF[(fi+ti)%len(matF)]
							}
						}
						fo := fmts(so[1])[(fi+ti)%len(fmts(so[1]))]
						if o.vecOut {
							fo = vecF[(fi+ti)%2]
						}
						prev := family(so[0], so[1], 1, T(7), T(5))
						n := so[0] * so[1]
						if n <= 6 || n <= 9 && r.Thorough {
							for k := 0; k < 1<<n; k++ {
								mm := model.Decode(so[0], so[1], []T{0, n1}, k)
								if err := checkMask(r, o, ms, fs, prev, fo, func() gb.Mask { return mk(fk, mm, 1) }, func(i int) bool { return mm.D[i] != 0 }, fmt.Sprint(mm)); err != nil {
									return err
								}
							}
							return nil
						}
						for k := 0; k < families; k++ {
							mm := family(so[0], so[1], k, n1, t.half())
							if err := checkMask(r, o, ms, fs, prev, fo, func() gb.Mask { return mk(fk, mm, k%routes) }, func(i int) bool { return mm.D[i] != 0 }, fmt.Sprint("family ", k)); err != nil {
								return err
							}
						}
						// one protected line, one protected cell
						for _, at := range []int{0, n / 2, n - 1} {
							for kind := 0; kind < 3; kind++ {
								mm := model.New[T](so[0], so[1])
								for i := range mm.D {
									if kind == 0 && i == at || kind == 1 && i/so[1] == at/so[1] || kind == 2 && i%so[1] == at%so[1] {
										mm.D[i] = 1
									}
								}
								if err := checkMask(r, o, ms, fs, prev, fo, func() gb.Mask { return mk(fk, mm, 1) }, func(i int) bool { return mm.D[i] != 0 }, fmt.Sprintf("kind %d at %d", kind, at)); err != nil {
									return err
								}
							}
						}
						return nil
					})
				}
			}
		}
	}
	r.Group("foreign masks", "masks of another element type, lock-protected ones, and implementations of the Mask interface of the caller's own: every operator, every mask content")
	fsh := [][2]int{{2, 2}, {3, 1}}
	for _, s := range fsh {
		for _, o := range maskedOps[T]() {
			if o.vecOut && s[0] != s[1] || o.square && s[0] != s[1] {
				continue
			}
			so := s
			if o.vecOut {
				so = [2]int{s[0], 1}
			}
			for fi, f := range fmts(s[1]) {
				if o.alias < 0 && !f.vector() {
					continue
				}
				for kind := range foreignMasks {
					s, o, f, fi, kind := s, o, f, fi, kind
					r.Case(func() string {
						return fmt.Sprintf("foreign %s %s %v %v mask %s", t.name, o.name, f, s, foreignMasks[kind].name)
					}, func() error {
						for k := 0; k < 1<<(so[0]*so[1]); k++ {
							ms := []Mat[T]{family(s[0], s[1], 1, n1, T(2)), family(s[0], s[1], 8, T(3), n1)}
							fs, fo := []fm{f, f}, f
							if o.vecOut {
								ms[1] = family(s[0], 1, 8, T(3), n1)
								fs[1], fo = vecF[fi%2], vecF[k%2]
							}
							on := func(i int) bool { return k>>i&1 == 1 }
							if err := checkMask(r, o, ms[:o.nin], fs[:o.nin], family(so[0], so[1], 1, T(7), T(5)), fo, func() gb.Mask { return foreignMasks[kind].mk(so[0], so[1], on) }, on, fmt.Sprintf("%s %b", foreignMasks[kind].name, k)); err != nil {
								return err
							}
						}
						return nil
					})
				}
			}
		}
		for _, f := range fmts(s[1]) {
			for kind := range foreignMasks {
				s, f, kind := s, f, kind
				r.Case(func() string {
					return fmt.Sprintf("foreign reduce %s %v %v mask %s", t.name, f, s, foreignMasks[kind].name)
				}, func() error {
					m := family(s[0], s[1], 1, n1, T(2))
					a := mk(f, m, 1)
					for k := 0; k < 1<<(s[0]*s[1]); k++ {
						var want T
						for i := range m.D {
							if k>>i&1 == 0 {
								want += m.D[i]
							}
						}
						r.Step(1)
						x := foreignMasks[kind].mk(s[0], s[1], func(i int) bool { return k>>i&1 == 1 })
						if g := gb.ReduceMatrixToScalar[T](bg, a, x); g != want {
							return rep.Errf("sum of %v masked by %s %b = %v, want %v", m, foreignMasks[kind].name, k, g, want)
						}
						if f.vector() {
							if g := gb.ReduceVectorToScalar[T](bg, a.(gb.VectorLogial[T]), x); g != want {
								return rep.Errf("vector sum of %v masked by %s %b = %v, want %v", m, foreignMasks[kind].name, k, g, want)
							}
						}
					}
					return nil
				})
			}
		}
	}
	r.Group("reductions", "reductions skip exactly the masked elements: every mask content and format, matrix and vector forms")
	for _, s := range [][2]int{{2, 2}, {2, 3}, {4, 1}} {
		for _, f := range fmts(s[1]) {
			for _, fk := range fmts(s[1]) {
				s, f, fk := s, f, fk
				r.Case(func() string { return fmt.Sprintf("reduce %s %v mask %v %v", t.name, f, fk, s) }, func() error {
					ma := family(s[0], s[1], 1, n1, T(2))
					for i := range ma.D {
						ma.D[i] = T(1) // distinct subset sums not needed: powers below
						for j := 0; j < i; j++ {
							ma.D[i] *= 2
						}
					}
					a := mk(f, ma, 1)
					for k := 0; k < model.Pow(3, s[0]*s[1]); k++ {
						mm := model.Decode(s[0], s[1], []T{0, 1, n1}, k)
						x := mk(fk, mm, k%routes)
						var want T
						for i := range ma.D {
							if mm.D[i] == 0 {
								want += ma.D[i]
							}
						}
						r.Step(1)
						if g := gb.ReduceMatrixToScalar[T](bg, a, x); g != want {
							return rep.Errf("sum of %v masked by %v = %v, want %v", ma, mm, g, want)
						}
						if f.vector() && s[1] == 1 {
							if g := gb.ReduceVectorToScalar[T](bg, a.(gb.VectorLogial[T]), x); g != want {
								return rep.Errf("vector sum of %v masked by %v = %v, want %v", ma, mm, g, want)
							}
						}
						if err := expect[T](x, mm, "mask"); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	r.Group("column reductions", "the mask of a matrix-to-vector reduction applies to the rows of every column")
	for _, f := range matF {
		for _, fk := range fmts(1) {
			f, fk := f, fk
			r.Case(func() string { return fmt.Sprintf("redcol %s %v mask %v", t.name, f, fk) }, func() error {
				ma := family(3, 2, 1, n1, T(2))
				a := mk(f, ma, 1)
				for k := 0; k < 27; k++ {
					mm := model.Decode(3, 1, []T{0, 1, n1}, k)
					v := gb.ReduceMatrixToVectorWithMonoID(bg, a, gb.DefaultMonoIDAddition[T](), mk(fk, mm, 1))
					r.Step(1)
					for c := 0; c < 2; c++ {
						var want T
						for i := 0; i < 3; i++ {
							if mm.D[i] == 0 {
								want += ma.At(i, c)
							}
						}
						if v.AtVec(c) != want {
							return rep.Errf("column %d of %v masked by %v sums to %v, want %v", c, ma, mm, v.AtVec(c), want)
						}
					}
				}
				return nil
			})
		}
	}
}

// ownMask is a mask implemented outside the library.
type ownMask struct {
	r, c int
	on   func(i int) bool
}

func (m ownMask) Rows() int             { return m.r }
func (m ownMask) Columns() int          { return m.c }
func (m ownMask) Element(r, c int) bool { return m.on(r*m.c + c) }

type ownMaskPtr struct{ ownMask }

func filled[U tnum](f fm, v U) func(r, c int, on func(int) bool) gb.Mask {
	return func(r, c int, on func(int) bool) gb.Mask {
		m := model.New[U](r, c)
		for i := range m.D {
			if on(i) {
				m.D[i] = v
			}
		}
		if f.vector() && c != 1 {
			f = fCSR
		}
		return mk(f, m, 2)
	}
}

// foreignMasks builds masks that are not matrices of the operation's element type.
var foreignMasks = []struct {
	name string
	mk   func(r, c int, on func(int) bool) gb.Mask
}{
	{"the caller's own", func(r, c int, on func(int) bool) gb.Mask { return ownMask{r, c, on} }},
	{"the caller's own, by pointer", func(r, c int, on func(int) bool) gb.Mask { return &ownMaskPtr{ownMask{r, c, on}} }},
	{"float64 fractions", filled(fCSR, 0.25)},
	{"float32 negative", filled(fCSC, float32(-3))},
	{"int8 lowest", filled(fDEN, int8(-128))},
	{"uint64 highest", filled(fSV, ^uint64(0))},
	{"uint8", filled(fDV, uint8(128))},
	{"lock-protected", func(r, c int, on func(int) bool) gb.Mask {
		return gb.NewMutexMatrix[float64](filled(fCSC, -1.0)(r, c, on).(gb.Matrix[float64]))
	}},
}
