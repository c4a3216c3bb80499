package main

import (
	"context"
	"fmt"
	"sync/atomic"
	"time"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/strassen"
	gbsort "github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
	"verif.local/mc/model"
	"verif.local/mc/rep"
)

// ---- P17: reductions (contents; the schedules are explored by conc) ---------

func (t tc[T]) P17(r *rep.R) {
	t.between(r, "reduction")
	t.apart(r, "reduction")
	t.nestedReduce(r)
	type mon struct {
		name  string
		unit  T
		op    func(a, b T) T
		zerok bool // ignores zero
	}
	mons := []mon{
		{"sum", 0, func(a, b T) T { return a + b }, true},
		{"max", 0, func(a, b T) T {
			if a > b {
				return a
			}
			return b
		}, true},
		{"product", 1, func(a, b T) T { return a * b }, false},
		{"sum from 3", 3, func(a, b T) T { return a + b }, true},
		{"minimum", 100, func(a, b T) T {
			if a < b {
				return a
			}
			return b
		}, false},
	}
	run := func(m Mat[T], f fm, route int) error {
		a := mk(f, m, route)
		for _, mo := range mons {
			if !mo.zerok && m.NNZ() != len(m.D) {
				continue
			}
			if mo.name == "product" && t.float() {
				// only products that are exact in every order of the factors
				if p := product(m.D); p > 1<<22 || p < -(1<<22) {
					continue
				}
			}
			id := binaryop.NewMonoID(mo.unit, binaryop.NewBinaryOp(mo.op))
			fold := func(vs []T) T {
				acc := mo.unit
				for _, v := range vs {
					acc = mo.op(acc, v)
				}
				return acc
			}
			want := fold(m.D)
			r.Step(1)
			if g := gb.ReduceMatrixToScalarWithMonoID[T](bg, a, id, nil); !model.Same(g, want) {
				return rep.Errf("%s of %v %v = %v, want %v", mo.name, f, m, g, want)
			}
			if f.vector() {
				if g := gb.ReduceVectorToScalarWithMonoID[T](bg, a.(gb.VectorLogial[T]), id, nil); !model.Same(g, want) {
					return rep.Errf("vector %s of %v %v = %v, want %v", mo.name, f, m, g, want)
				}
			}
			v := gb.ReduceMatrixToVectorWithMonoID(bg, a, id, nil)
			if v.Length() != m.C {
				return rep.Errf("column %s of %v has length %d", mo.name, m, v.Length())
			}
			for c := 0; c < m.C; c++ {
				var col []T
				for i := 0; i < m.R; i++ {
					col = append(col, m.At(i, c))
				}
				if g := v.AtVec(c); !model.Same(g, fold(col)) {
					return rep.Errf("column %d %s of %v %v = %v, want %v", c, mo.name, f, m, g, fold(col))
				}
			}
		}
		var sum T
		for _, v := range m.D {
			sum += v
		}
		r.Step(2)
		if g := gb.ReduceMatrixToScalar[T](bg, a, nil); !model.Same(g, sum) {
			return rep.Errf("default reduction of %v %v = %v, want %v", f, m, g, sum)
		}
		if f.vector() {
			if g := gb.ReduceVectorToScalar[T](bg, a.(gb.VectorLogial[T]), nil); !model.Same(g, sum) {
				return rep.Errf("default vector reduction of %v %v = %v, want %v", f, m, g, sum)
			}
		}
		v := gb.ReduceMatrixToVector(bg, a)
		if v.Length() != m.C {
			return rep.Errf("default column reduction has length %d, want %d", v.Length(), m.C)
		}
		for c := 0; c < m.C; c++ {
			var max T
			for i := 0; i < m.R; i++ {
				if x := m.At(i, c); x > max {
					max = x
				}
			}
			if g := v.AtVec(c); !model.Same(g, max) {
				return rep.Errf("default reduction of column %d of %v %v = %v, want %v", c, f, m, g, max)
			}
		}
		return expect[T](a, m, "source")
	}
	r.Group("contents", "every content of small shapes, every format, the default and four other reductions; goroutines run under the real scheduler here")
	type sp struct {
		r, c  int
		alpha []T
	}
	specs := []sp{{2, 2, []T{0, 1}}, {2, 1, t.alpha5()}}
	if t.deep {
		specs = []sp{{2, 2, []T{0, 1, t.neg1()}}, {2, 1, t.alpha5()}, {1, 3, []T{0, 1, 2}}, {2, 3, []T{0, 3}}, {4, 1, []T{0, 3}}}
		if r.Thorough {
			specs = append(specs, sp{2, 2, t.alpha5()[:5]}, sp{3, 3, []T{0, 3}}, sp{3, 2, []T{0, 1, t.neg1()}}, sp{8, 1, []T{0, 3}})
		}
	}
	for _, s := range specs {
		for _, f := range fmts(s.c) {
			for code := 0; code < model.Pow(len(s.alpha), s.r*s.c); code++ {
				s, f, code := s, f, code
				r.Case(func() string {
					return fmt.Sprintf("reduce %s %v %dx%d content %d of %v", t.name, f, s.r, s.c, code, s.alpha)
				}, func() error {
					return run(model.Decode(s.r, s.c, s.alpha, code), f, code%routes)
				})
			}
		}
	}
	r.Group("families", "degenerate and larger sizes")
	for _, s := range append([][2]int{{0, 0}, {0, 2}, {2, 0}, {5, 9}, {9, 1}, {17, 17}, {65, 1}, {1, 65}}, t.long(true)...) {
		for _, f := range fmts(s[1]) {
			for k := 0; k < families; k++ {
				s, f, k := s, f, k
				if !t.deep && s[0]*s[1] > 50 {
					continue
				}
				r.Case(func() string { return fmt.Sprintf("reducef %s %v %v k=%d", t.name, f, s, k) }, func() error {
					return run(family(s[0], s[1], k, t.neg1(), T(2)), f, k%5)
				})
			}
		}
	}
}

func product[T tnum](vs []T) float64 {
	p := 1.0
	for _, v := range vs {
		p *= float64(v)
	}
	return p
}

// ---- P18: construction -----------------------------------------------------

func (t tc[T]) P18(r *rep.R) {
	r.Group("arrays", "every content of small shapes from an array in every format; arrays overwritten afterwards for compressed formats")
	type sp struct {
		r, c  int
		alpha []T
	}
	specs := []sp{{2, 2, t.alpha5()}, {1, 3, []T{0, 1, t.wide()}}, {3, 1, []T{0, 1, t.wide()}}, {2, 3, []T{0, 1}}, {3, 2, []T{0, 1}}}
	if r.Thorough {
		specs = append(specs, sp{3, 3, []T{0, 1}}, sp{2, 5, []T{0, 1}}, sp{8, 1, []T{0, 1}}, sp{1, 8, []T{0, 1}})
	}
	if v := t.special(); v != nil {
		specs = append(specs, sp{2, 2, v}, sp{3, 1, v})
	}
	check := func(m Mat[T], f fm) error {
		rows := m.Rows()
		flat := append([]T(nil), m.D...)
		var x gb.MatrixLogical[T]
		switch f {
		case fCSR:
			x = gb.NewCSRMatrixFromArray(rows)
		case fCSC:
			x = gb.NewCSCMatrixFromArray(rows)
		case fDEN:
			x = gb.NewDenseMatrixFromArrayN(rows)
		case fDENL:
			x = gb.NewDenseMatrixFromArray(rows)
		case fSV:
			x = gb.NewSparseVectorFromArray(flat)
		case fDV:
			x = gb.NewDenseVectorFromArrayN(flat)
		case fDVL:
			x = gb.NewDenseVectorFromArray(flat)
		}
		r.Step(1)
		if err := expect(x, m, fmt.Sprintf("%v from array", f)); err != nil {
			return err
		}
		if x.Size() != m.R*m.C {
			return rep.Errf("size %d", x.Size())
		}
		if gb.IsSparseMatrix(x) != f.sparse() {
			return rep.Errf("%v[%s] classified sparse=%v", f, t.name, !f.sparse())
		}
		// the array itself is not modified by construction or reading
		for i := range rows {
			for j := range rows[i] {
				if !model.Same(rows[i][j], m.At(i, j)) {
					return rep.Errf("construction changed the array")
				}
			}
		}
		if f.sparse() {
			for i := range rows {
				for j := range rows[i] {
					rows[i][j] = 77
				}
			}
			for i := range flat {
				flat[i] = 77
			}
			if err := expect(x, m, "after overwriting the array"); err != nil {
				return err
			}
		}
		return nil
	}
	for _, s := range specs {
		for _, f := range fmtsL(s.c) {
			for code := 0; code < model.Pow(len(s.alpha), s.r*s.c); code++ {
				s, f, code := s, f, code
				r.Case(func() string {
					return fmt.Sprintf("array %s %v %dx%d content %d of %v", t.name, f, s.r, s.c, code, s.alpha)
				}, func() error {
					return check(model.Decode(s.r, s.c, s.alpha, code), f)
				})
			}
		}
	}
	r.Group("families", "larger arrays")
	for _, s := range append([][2]int{{5, 9}, {9, 1}, {17, 33}, {65, 1}, {1, 65}, {129, 2}}, t.long(true)...) {
		for _, f := range fmtsL(s[1]) {
			for k := 0; k < families; k++ {
				s, f, k := s, f, k
				r.Case(func() string { return fmt.Sprintf("arrayf %s %v %v k=%d", t.name, f, s, k) }, func() error {
					return check(family(s[0], s[1], k, t.neg1(), t.half()), f)
				})
			}
		}
	}
	r.Group("new", "new objects of every shape up to 4x4 and larger ones are zero, of the right shape and class; independent of one another")
	for _, s := range append(shapes(0, 4), [2]int{33, 65}, [2]int{129, 1}) {
		for _, f := range fmtsL(s[1]) {
			s, f := s, f
			r.Case(func() string { return fmt.Sprintf("new %s %v %v", t.name, f, s) }, func() error {
				x, y := emptyL[T](f, s[0], s[1]), emptyL[T](f, s[0], s[1])
				z := model.New[T](s[0], s[1])
				r.Step(1)
				if err := expect(x, z, "new object"); err != nil {
					return err
				}
				if gb.IsSparseMatrix(x) != f.sparse() {
					return rep.Errf("%v[%s] classified sparse=%v", f, t.name, !f.sparse())
				}
				for i := range z.D {
					x.Set(i/s[1], i%s[1], 3)
				}
				if err := expect(y, z, "another new object"); err != nil {
					return err
				}
				if gb.IsSparseMatrix(x) != f.sparse() {
					return rep.Errf("full %v[%s] classified sparse=%v", f, t.name, !f.sparse())
				}
				return nil
			})
		}
	}
	r.Group("derived", "results keep the class of their format: copies of compressed objects are sparse, of dense ones dense")
	for _, f := range fmtsL(1) {
		f := f
		r.Case(func() string { return fmt.Sprintf("derived %s %v", t.name, f) }, func() error {
			m := family(3, 1, 1, t.neg1(), T(2))
			x := mkL[T](f, m, 1)
			r.Step(1)
			if gb.IsSparseMatrix(x.CopyLogical()) != f.sparse() {
				return rep.Errf("copy of %v[%s] classified sparse=%v", f, t.name, !f.sparse())
			}
			if n, ok := x.(gb.Matrix[T]); ok {
				if !gb.IsSparseMatrix[T](gb.TransposeToCSR(bg, n)) || !gb.IsSparseMatrix[T](gb.TransposeToCSC(bg, n)) {
					return rep.Errf("TransposeToCSR/CSC[%s] result is not classified sparse", t.name)
				}
			}
			return nil
		})
	}
}

func p18bool(r *rep.R) {
	r.Group("new", "")
	for _, s := range shapes(0, 3) {
		s := s
		r.Case(func() string { return fmt.Sprintf("new bool %v", s) }, func() error {
			x := gb.NewDenseMatrix[bool](s[0], s[1])
			z := model.New[bool](s[0], s[1])
			r.Step(1)
			if gb.IsSparseMatrix[bool](x) || gb.IsSparseMatrix[bool](gb.NewDenseVector[bool](s[0])) {
				return rep.Errf("dense bool classified sparse")
			}
			return first(func() error { return expect[bool](x, z, "new") }, func() error {
				return expect[bool](gb.NewDenseVector[bool](s[0]), model.New[bool](s[0], 1), "new vector")
			})
		})
	}
	for code := 0; code < 32; code++ {
		code := code
		r.Case(func() string { return fmt.Sprintf("array bool vector %d", code) }, func() error {
			m := model.Decode(5, 1, []bool{false, true}, code)
			r.Step(1)
			return expect[bool](boolVec(m), m, "vector from array")
		})
	}
}

// ---- P20: cancellation points (sequential operations) -----------------------

// cutCtx becomes cancelled at the k-th time it is asked.
type cutCtx struct {
	cnt atomic.Int64
	k   int
	ch  chan struct{}
}

func newCut(k int) *cutCtx {
	c := &cutCtx{k: k, ch: make(chan struct{})}
	if k == 0 {
		close(c.ch)
	}
	return c
}

func (c *cutCtx) tick() {
	if c.cnt.Add(1) == int64(c.k) {
		close(c.ch)
	}
}
func (c *cutCtx) n() int                      { return int(c.cnt.Load()) }
func (c *cutCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *cutCtx) Done() <-chan struct{}       { c.tick(); return c.ch }
func (c *cutCtx) Err() error {
	c.tick()
	select {
	case <-c.ch:
		return context.Canceled
	default:
		return nil
	}
}
func (c *cutCtx) Value(any) any { return nil }

type cutOp[T tnum] struct {
	name   string
	nin    int
	alias  int
	fresh  bool // the operation makes its own output
	vecOut bool
	tr     bool
	loose  bool // output values are not pinned down when cancelled midway
	do     func(ctx context.Context, in []gb.Matrix[T], mask gb.Mask, out gb.Matrix[T]) gb.Matrix[T]
}

func cutOps[T tnum]() []cutOp[T] {
	type M = gb.Matrix[T]
	type C = context.Context
	v := func(m M) gb.Vector[T] { return m.(gb.Vector[T]) }
	dbl := unaryop.NewUnaryOp(func(v T) T { return v + v })
	kill := unaryop.NewUnaryOp(func(v T) T { return 0 })
	add := binaryop.NewMonoID(0, binaryop.Addition[T]())
	one := func(t T) M { x := gb.NewDenseVectorN[T](1); x.SetVec(0, t); return x }
	return []cutOp[T]{
		{"MatrixMatrixMultiply", 2, 0, false, false, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.MatrixMatrixMultiply(c, i[0], i[1], k, o); return o }},
		{"MatrixVectorMultiply", 2, 0, false, true, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.MatrixVectorMultiply(c, i[0], v(i[1]), k, v(o)); return o }},
		{"VectorMatrixMultiply", 2, 0, false, true, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.VectorMatrixMultiply(c, v(i[1]), i[0], k, v(o)); return o }},
		{"Add", 2, 0, false, false, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.Add(c, i[0], i[1], k, o); return o }},
		{"Subtract", 2, 0, false, false, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.Subtract(c, i[0], i[1], k, o); return o }},
		{"ElementWiseMatrixMultiply", 2, 0, false, false, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.ElementWiseMatrixMultiply(c, i[0], i[1], k, o); return o }},
		{"ElementWiseMatrixMultiply into first", 2, 1, false, false, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.ElementWiseMatrixMultiply(c, i[0], i[1], k, o); return o }},
		{"ElementWiseMatrixMultiply into second", 2, 2, false, false, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.ElementWiseMatrixMultiply(c, i[0], i[1], k, o); return o }},
		{"ElementWiseMatrixAdd", 2, 0, false, false, false, true, func(c C, i []M, k gb.Mask, o M) M { gb.ElementWiseMatrixAdd(c, i[0], i[1], k, o); return o }},
		{"ElementWiseMatrixAdd into first", 2, 1, false, false, false, true, func(c C, i []M, k gb.Mask, o M) M { gb.ElementWiseMatrixAdd(c, i[0], i[1], k, o); return o }},
		{"Apply", 1, 0, false, false, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.Apply[T](c, i[0], k, dbl, o); return o }},
		{"Apply in place", 1, 1, false, false, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.Apply[T](c, i[0], k, dbl, o); return o }},
		{"Apply zero in place", 1, 1, false, false, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.Apply[T](c, i[0], k, kill, o); return o }},
		{"Negative", 1, 0, false, false, false, false, func(c C, i []M, k gb.Mask, o M) M { gb.Negative(c, i[0], k, o); return o }},
		{"Transpose", 1, 0, false, false, true, false, func(c C, i []M, k gb.Mask, o M) M { gb.Transpose[T](c, i[0], k, o); return o }},
		{"Scalar", 1, 0, true, false, false, false, func(c C, i []M, k gb.Mask, o M) M { return gb.Scalar(c, i[0], 3) }},
		{"Scalar by zero", 1, 0, true, false, false, false, func(c C, i []M, k gb.Mask, o M) M { return gb.Scalar(c, i[0], 0) }},
		{"TransposeToCSR", 1, 0, true, false, true, false, func(c C, i []M, k gb.Mask, o M) M { return gb.TransposeToCSR(c, i[0]) }},
		{"TransposeToCSC", 1, 0, true, false, true, false, func(c C, i []M, k gb.Mask, o M) M { return gb.TransposeToCSC(c, i[0]) }},
		{"ReduceMatrixToScalar", 1, 0, true, false, false, true, func(c C, i []M, k gb.Mask, o M) M { return one(gb.ReduceMatrixToScalar[T](c, i[0], k)) }},
		{"ReduceMatrixToVector", 1, 0, true, false, false, true, func(c C, i []M, k gb.Mask, o M) M { return gb.ReduceMatrixToVector(c, i[0]) }},
		{"ReduceMatrixToVectorWithMonoID", 1, 0, true, false, false, true, func(c C, i []M, k gb.Mask, o M) M {
			return gb.ReduceMatrixToVectorWithMonoID(c, i[0], add, nil)
		}},
		{"Equal", 2, 0, true, false, false, true, func(c C, i []M, k gb.Mask, o M) M {
			gb.Equal[T](c, i[0], i[1])
			gb.NotEqual[T](c, i[0], i[0])
			return one(0)
		}},
		{"Strassen", 2, 0, true, false, false, true, func(c C, i []M, k gb.Mask, o M) M {
			if i[0].Columns() != i[1].Rows() {
				return one(0)
			}
			return strassen.MultiplyCrossoverPoint(c, i[0], i[1], 1)
		}},
		{"BFS", 1, 0, true, false, false, true, func(c C, i []M, k gb.Mask, o M) M {
			if i[0].Columns() != i[0].Rows() {
				return one(0)
			}
			n := 0
			x := breadthfirst.Search(c, i[0], 0, func(gb.Vector[T]) bool { n++; return false })
			if n > i[0].Rows() {
				panic("more steps than vertices")
			}
			return x
		}},
	}
}

func (t tc[T]) P20(r *rep.R) {
	r.Group("cancellation points", "every operation cancelled before the call and at every consultation of the context, over formats, contents, masks and nonempty outputs")
	sh := [][2]int{{2, 2}}
	if t.deep {
		sh = [][2]int{{1, 1}, {2, 2}, {2, 3}, {3, 1}, {9, 9}, {33, 2}, {70, 1}}
		if r.Thorough {
			sh = append(sh, [2]int{3, 3}, [2]int{4, 4}, [2]int{5, 1}, [2]int{1, 5})
		}
	}
	for _, s := range sh {
		for _, o := range cutOps[T]() {
			if (o.vecOut || o.name == "MatrixMatrixMultiply") && s[0] != s[1] {
				continue
			}
			so := [2]int{s[0], s[1]}
			if o.tr {
				so = [2]int{s[1], s[0]}
			}
			if o.vecOut {
				so[1] = 1
			}
			for _, fa := range fmts(s[1]) {
				for _, fb := range fmts(s[1]) {
					fos := fmts(so[1])
					if o.vecOut {
						fos = vecF
					}
					if o.fresh || o.alias > 0 {
						fos = fos[:1]
					}
					for _, fo := range fos {
						if o.nin == 1 && fb != fmts(s[1])[0] {
							continue
						}
						if s[0] > 5 && (o.nin == 2 && fa != fb || fo != fos[0] && fo != fos[len(fos)-1]) {
							continue
						}
						s, o, fa, fb, fo := s, o, fa, fb, fo
						r.Case(func() string { return fmt.Sprintf("cut %s %s %v,%v->%v %v", t.name, o.name, fa, fb, fo, s) }, func() error {
							for variant := 0; variant < 4; variant++ {
								if s[0] > 5 && variant > 1 {
									break
								}
								ms := []Mat[T]{family(s[0], s[1], []int{1, 6, 4, 8}[variant], T(3), T(2)), family(s[0], s[1], []int{6, 1, 8, 4}[variant], T(4), T(5))}
								fs := []fm{fa, fb}
								if o.vecOut {
									ms[1] = family(s[1], 1, 1, T(3), T(2))
									fs[1] = vecF[variant%2]
								}
								ms, fs = ms[:o.nin], fs[:o.nin]
								prev := family(so[0], so[1], []int{1, 0, 8, 5}[variant], T(7), T(9))
								mm := family(so[0], so[1], []int{0, 6, 2, 8}[variant], T(1), T(1))
								build := func() ([]gb.Matrix[T], gb.Matrix[T], gb.Mask) {
									in := make([]gb.Matrix[T], len(ms))
									for i := range ms {
										in[i] = mk(fs[i], ms[i], 1)
									}
									out := mk(fo, prev, 3)
									if o.alias > 0 {
										out = in[o.alias-1]
									}
									return in, out, mk(fDEN, mm, 1)
								}
								in, out, k := build()
								full := newCut(-1)
								fres := o.do(full, in, k, out)
								final := read[T](fres)
								before := prev
								if o.alias > 0 {
									before = ms[o.alias-1]
								}
								if o.fresh {
									before = model.New[T](final.R, final.C)
									if o.name[:2] == "Sc" {
										before = ms[0]
									}
								}
								for cut := 0; cut <= full.n()+1; cut++ {
									in, out, k := build()
									r.Step(1)
									ctx := newCut(cut)
									res := o.do(ctx, in, k, out)
									for i := range in {
										if o.alias != i+1 {
											if err := expect[T](in[i], ms[i], fmt.Sprintf("cancelled at %d of %d: operand %d", cut, full.n(), i)); err != nil {
												return err
											}
										}
									}
									if err := expect[T](k.(gb.Matrix[T]), mm, "mask"); err != nil {
										return err
									}
									if isNil(res) {
										return rep.Errf("cancelled at %d of %d: no result", cut, full.n())
									}
									got := read[T](res)
									if o.fresh && o.loose {
										continue
									}
									if got.R != final.R || got.C != final.C {
										return rep.Errf("cancelled at %d of %d: result is %dx%d", cut, full.n(), got.R, got.C)
									}
									for i := range got.D {
										masked := !o.fresh && mm.D[i] != 0
										switch {
										case masked && !model.Same(got.D[i], before.D[i]):
											return rep.Errf("cancelled at %d of %d: masked cell %d is %v, was %v", cut, full.n(), i, got.D[i], before.D[i])
										case cut == 0 && !model.Same(got.D[i], before.D[i]):
											return rep.Errf("cancelled before the call: cell %d is %v, was %v", i, got.D[i], before.D[i])
										case !o.loose && !model.Same(got.D[i], before.D[i]) && !model.Same(got.D[i], final.D[i]):
											return rep.Errf("cancelled at %d of %d: cell %d is %v, neither the previous %v nor the final %v; operands %v", cut, full.n(), i, got.D[i], before.D[i], final.D[i], ms)
										}
									}
									if !o.fresh {
										// the output remains usable
										for i := range got.D {
											res.Set(i/got.C, i%got.C, T(i+1))
										}
										for i := range got.D {
											if res.At(i/got.C, i%got.C) != T(i+1) {
												return rep.Errf("cancelled at %d of %d: the output is damaged", cut, full.n())
											}
										}
									}
								}
							}
							return nil
						})
					}
				}
			}
		}
	}
}

func p20rune(r *rep.R) {
	r.Group("sorts and comparisons", "cancelled at every consultation: a sort still returns a permutation of the rows or columns")
	for _, f := range matFL {
		for code := 0; code < model.Pow(3, 6); code++ {
			if !r.Thorough && code%7 != 0 {
				continue
			}
			f, code := f, code
			r.Case(func() string { return fmt.Sprintf("cut sort %v %d", f, code) }, func() error {
				m := model.Decode(3, 2, []rune{'a', 'b', 0}, code)
				for k := 0; k < 2; k++ {
					sortit := func(c context.Context, x gb.MatrixRune) gb.MatrixRune {
						if k == 0 {
							return gbsort.BubbleRow(c, x)
						}
						return gbsort.BubbleColumns(c, x)
					}
					full := newCut(-1)
					sortit(full, mkL[rune](f, m, 1))
					for cut := 0; cut <= full.n()+1; cut++ {
						x := mkL[rune](f, m, 1)
						r.Step(1)
						got := sortit(newCut(cut), x)
						if err := expect(x, m, "sort input"); err != nil {
							return err
						}
						if isNil(got) || got.Rows() != 3 || got.Columns() != 2 {
							return rep.Errf("cut %d: result missing or misshapen", cut)
						}
						g := read[rune](got)
						if k == 1 {
							g = model.Transpose(g)
						}
						w := m
						if k == 1 {
							w = model.Transpose(m)
						}
						if !samePermutation(g, w) {
							return rep.Errf("sort cancelled at %d of %d returned %v, not a permutation of %v", cut, full.n(), read[rune](got), m)
						}
					}
				}
				// comparisons return
				x, y := mkL[rune](f, m, 1), mkL[rune](fDENL, m, 1)
				for cut := 0; cut < 30; cut++ {
					r.Step(1)
					gb.Compare(newCut(cut), x, y)
					gb.Less(newCut(cut), x, y)
					gb.Greater(newCut(cut), x, y)
					gb.String(newCut(cut), x)
				}
				return nil
			})
		}
	}
}

func samePermutation[T constraints.Type](a, b Mat[T]) bool {
	cnt := map[string]int{}
	for _, row := range a.Rows() {
		cnt[fmt.Sprint(row)]++
	}
	for _, row := range b.Rows() {
		cnt[fmt.Sprint(row)]--
	}
	for _, v := range cnt {
		if v != 0 {
			return false
		}
	}
	return true
}

// ---- P22, P23: the lock-protected matrix used by one goroutine ---------------

func (t tc[T]) P22(r *rep.R) {
	t.nestedLocked(r)
	r.Group("transparency", "every method of the wrapper against the same method of an unwrapped matrix of the same content: every content of small shapes, every wrapped format; every reachable state under writes")
	specs := []struct {
		r, c  int
		alpha []T
	}{{2, 2, []T{0, 1}}, {2, 1, []T{0, 1, t.neg1()}}}
	if t.deep {
		specs = append(specs, struct {
			r, c  int
			alpha []T
		}{2, 3, []T{0, 1}}, struct {
			r, c  int
			alpha []T
		}{2, 2, []T{0, 1, t.neg1()}})
	}
	for _, s := range specs {
		for _, f := range fmts(s.c) {
			for code := 0; code < model.Pow(len(s.alpha), s.r*s.c); code++ {
				s, f, code := s, f, code
				r.Case(func() string {
					return fmt.Sprintf("wrap %s %v %dx%d content %d of %v", t.name, f, s.r, s.c, code, s.alpha)
				}, func() error {
					m := model.Decode(s.r, s.c, s.alpha, code)
					x := mk(f, m, code%routes)
					w := gb.NewMutexMatrix(mk(f, m, code%routes))
					y := family(s.r, s.c, 1, T(2), T(3))
					ym := mk(fDEN, y, 1)
					sq := mk(fCSR, family(s.c, s.c, 1, T(2), T(3)), 1)
					readW := func() Mat[T] {
						o := model.New[T](w.Rows(), w.Columns())
						for i := range o.D {
							o.D[i] = w.At(i/o.C, i%o.C)
						}
						return o
					}
					same := func(what string) error {
						if g := readW(); !g.Equal(m) {
							return rep.Errf("%s: wrapper reads %v, want %v", what, g, m)
						}
						if w.Rows() != s.r || w.Columns() != s.c || w.Size() != x.Size() || w.Values() != x.Values() {
							return rep.Errf("%s: dimensions or counts differ: %dx%d size %d values %d, wrapped type gives %d and %d", what, w.Rows(), w.Columns(), w.Size(), w.Values(), x.Size(), x.Values())
						}
						return nil
					}
					lm := func(a, b gb.MatrixLogical[T], what string) func() error {
						return func() error { r.Step(1); return expect(a, read(b), what) }
					}
					if err := same("initially"); err != nil {
						return err
					}
					if err := first(lm(w.Copy(), x.Copy(), "Copy"), lm(w.Scalar(3), x.Scalar(3), "Scalar"), lm(w.Scalar(0), x.Scalar(0), "Scalar"),
						lm(w.Multiply(sq), x.Multiply(sq), "Multiply"), lm(w.Add(ym), x.Add(ym), "Add"), lm(w.Subtract(ym), x.Subtract(ym), "Subtract"),
						lm(w.Negative(), x.Negative(), "Negative"), lm(w.Transpose(), x.Transpose(), "Transpose")); err != nil {
						return err
					}
					for i := 0; i < s.r; i++ {
						if err := lm(w.RowsAt(i), x.RowsAt(i), "RowsAt")(); err != nil {
							return err
						}
						if fmt.Sprint(w.RowsAtToArray(i)) != fmt.Sprint(x.RowsAtToArray(i)) {
							return rep.Errf("RowsAtToArray(%d)", i)
						}
					}
					for j := 0; j < s.c; j++ {
						if err := lm(w.ColumnsAt(j), x.ColumnsAt(j), "ColumnsAt")(); err != nil {
							return err
						}
					}
					for b := 0; b < model.Pow(len(s.alpha), s.r*s.c); b += 1 + b/8 {
						o := mk(fDEN, model.Decode(s.r, s.c, s.alpha, b), 1)
						r.Step(1)
						if w.Equal(o) != x.Equal(o) || w.NotEqual(o) != x.NotEqual(o) {
							return rep.Errf("Equal with %v", read[T](o))
						}
					}
					for i := range m.D {
						if w.Element(i/s.c, i%s.c) != x.Element(i/s.c, i%s.c) {
							return rep.Errf("Element")
						}
					}
					n := 0
					seen := map[[2]int]bool{}
					for it := w.Enumerate(); it.HasNext(); n++ {
						a, b, v := it.Next()
						if seen[[2]int{a, b}] || v != m.At(a, b) || n > len(m.D) {
							return rep.Errf("Enumerate yields (%d,%d)=%v; content %v", a, b, v, m)
						}
						seen[[2]int{a, b}] = true
					}
					if n != x.Values() {
						return rep.Errf("Enumerate yields %d elements, want %d", n, x.Values())
					}
					if err := same("after reads"); err != nil {
						return err
					}
					wm, xm := w.Map(), x.Map()
					n = 0
					for wm.HasNext() && xm.HasNext() {
						n++
						wm.Map(func(i, j int, v T) T { return v + T(i+2) })
						xm.Map(func(i, j int, v T) T { return v + T(i+2) })
						if n > len(m.D) {
							return rep.Errf("Map does not end")
						}
					}
					if wm.HasNext() || xm.HasNext() {
						return rep.Errf("Map visits a different number of elements")
					}
					m = read[T](x)
					if err := same("after Map"); err != nil {
						return err
					}
					for i := range m.D {
						for _, v := range []T{4, 0, 5} {
							w.Set(i/s.c, i%s.c, v)
							x.Set(i/s.c, i%s.c, v)
							m.D[i] = v
							r.Step(1)
							if err := same("after Set"); err != nil {
								return err
							}
							mm := m.Clone()
							if err := rmw(nil, func(g func(T) T) { w.Update(i/s.c, i%s.c, g) }, &mm, i/s.c, i%s.c, v+1); err != nil {
								return err
							}
							x.Set(i/s.c, i%s.c, v+1)
							m = mm
							if err := same("after Update"); err != nil {
								return err
							}
						}
					}
					w.Clear()
					x.Clear()
					m = model.New[T](s.r, s.c)
					return same("after Clear")
				})
			}
		}
	}
}

func (t tc[T]) P23(r *rep.R) {
	r.Group("panicking calls", "after every rejected or panicking call by one goroutine the wrapper still serves readers and writers and holds the same content")
	for _, s := range [][2]int{{2, 2}, {2, 3}, {3, 1}} {
		for _, f := range fmts(s[1]) {
			for k := 0; k < families; k++ {
				s, f, k := s, f, k
				r.Case(func() string { return fmt.Sprintf("panic %s %v %v k=%d", t.name, f, s, k) }, func() error {
					m := family(s[0], s[1], k, t.neg1(), T(2))
					w := gb.NewMutexMatrix(mk(f, m, 1))
					bad := mk(fDEN, family[T](s[0]+s[1]+1, s[1]+2, 1, 1, 1), 1)
					calls := map[string]func(){
						"At row":           func() { w.At(s[0], 0) },
						"At column":        func() { w.At(0, s[1]) },
						"At negative":      func() { w.At(-1, 0) },
						"Set row":          func() { w.Set(s[0], 0, 1) },
						"Set column":       func() { w.Set(0, -1, 1) },
						"Update row":       func() { w.Update(-1, 0, func(v T) T { return 1 }) },
						"Update column":    func() { w.Update(0, s[1], func(v T) T { return 1 }) },
						"update function":  func() { w.Update(0, 0, func(v T) T { panic("user") }) },
						"update last cell": func() { w.Update(s[0]-1, s[1]-1, func(v T) T { panic("user") }) },
						"RowsAt":           func() { w.RowsAt(s[0]) },
						"ColumnsAt":        func() { w.ColumnsAt(-1) },
						"RowsAtToArray":    func() { w.RowsAtToArray(s[0]) },
						"Element":          func() { w.Element(s[0], s[1]) },
						"Multiply":         func() { w.Multiply(bad) },
						"Add":              func() { w.Add(bad) },
						"Subtract":         func() { w.Subtract(bad) },
					}
					names := []string{"At row", "At column", "At negative", "Set row", "Set column", "Update row", "Update column", "update function", "update last cell", "RowsAt", "ColumnsAt", "RowsAtToArray", "Element", "Multiply", "Add", "Subtract"}
					for _, n := range names {
						r.Step(1)
						if !panics(calls[n]) {
							return rep.Errf("%s did not panic", n)
						}
						for i := range m.D {
							if g := w.At(i/s[1], i%s[1]); g != m.D[i] {
								return rep.Errf("after panicking %s cell %d is %v, want %v", n, i, g, m.D[i])
							}
						}
						v := m.D[0] + 1
						w.Set(0, 0, v)
						w.Update(0, 0, func(o T) T { return o - 1 })
						if w.At(0, 0) != m.D[0] {
							return rep.Errf("after panicking %s writes are lost", n)
						}
					}
					return nil
				})
			}
		}
	}
}

// ---- P24: Strassen (values; the schedules are explored by conc) --------------

func (t tc[T]) P24(r *rep.R) {
	var on func(a, b gb.Matrix[T], ma, mb Mat[T], fa, fb fm, cross int) error
	run := func(ma, mb Mat[T], fa, fb fm, cross int) error {
		return on(mk(fa, ma, 1), mk(fb, mb, 1), ma, mb, fa, fb, cross)
	}
	on = func(a, b gb.Matrix[T], ma, mb Mat[T], fa, fb fm, cross int) error {
		want := model.Mul(ma, mb)
		r.Step(1)
		p, q := strassen.MultiplyCrossoverPoint(bg, a, b, cross), strassen.Multiply(bg, a, b)
		if err := expect[T](p, want, fmt.Sprintf("Strassen crossover %d of %v %v and %v %v", cross, fa, ma, fb, mb)); err != nil {
			return err
		}
		if err := expect[T](q, want, fmt.Sprintf("Strassen of %v and %v", ma, mb)); err != nil {
			return err
		}
		if err := spoil[T](p, q); err != nil {
			return err
		}
		return first(func() error { return expect[T](a, ma, "first operand") }, func() error { return expect[T](b, mb, "second operand") })
	}
	// both operands the same object
	square := func(ma Mat[T], f fm, cross int) error {
		a := mk(f, ma, 1)
		want := model.Mul(ma, ma)
		r.Step(1)
		return first(func() error {
			return expect[T](strassen.MultiplyCrossoverPoint(bg, a, a, cross), want, fmt.Sprintf("Strassen square, crossover %d, of %v %v", cross, f, ma))
		}, func() error {
			return expect[T](strassen.Multiply(bg, a, a), want, fmt.Sprintf("Strassen square of %v", ma))
		},
			func() error { return expect[T](a, ma, "operand") })
	}
	again(r, "the product with itself and, on either side, with a fixed matrix, crossover 1,", matF, [][2]int{{2, 2}}, []T{0, 1, 2}, func(x gb.MatrixLogical[T], m Mat[T], f fm) error {
		a, o := x.(gb.Matrix[T]), Mat[T]{R: 2, C: 2, D: []T{1, 2, 3, 4}}
		for _, fb := range matF {
			if fb != f && fb != fDEN && !t.deep {
				continue
			}
			b := mk(fb, o, 1)
			if err := first(func() error { return on(a, b, m, o, f, fb, 1) }, func() error { return on(b, a, o, m, fb, f, 1) }); err != nil {
				return err
			}
		}
		return expect[T](strassen.MultiplyCrossoverPoint(bg, a, a, 1), model.Mul(m, m), "square")
	})
	r.Group("contents", "every pair of 2x2 contents, every format pair, crossover 1")
	alpha := []T{0, 2}
	if t.deep {
		alpha = []T{0, 1, t.neg1()}
	}
	n := model.Pow(len(alpha), 4)
	for _, fa := range matF {
		for _, fb := range matF {
			for a := 0; a < n; a++ {
				fa, fb, a := fa, fb, a
				if fa != fDEN && fb != fDEN && fa != fb && !r.Thorough {
					continue
				}
				r.Case(func() string { return fmt.Sprintf("strassen %s %v,%v A %d of %v", t.name, fa, fb, a, alpha) }, func() error {
					step := 1
					if fa != fDEN || fb != fDEN {
						step = 5
					}
					for b := a % step; b < n; b += step {
						if err := run(model.Decode(2, 2, alpha, a), model.Decode(2, 2, alpha, b), fa, fb, 1); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	r.Group("self", "a matrix times itself as the same object: every 2x2 content over a larger alphabet, every format, and square sizes to 18")
	alpha = []T{0, 1, 2, t.neg1()}
	for _, f := range matF {
		for a := 0; a < model.Pow(4, 4); a++ {
			f, a := f, a
			r.Case(func() string { return fmt.Sprintf("strassen self %s %v %d of %v", t.name, f, a, alpha) }, func() error {
				return square(model.Decode(2, 2, alpha, a), f, 1)
			})
		}
		for _, n := range []int{1, 3, 4, 5, 6, 8, 12, 16, 18} {
			for cross := 1; cross <= 3; cross++ {
				f, n, cross := f, n, cross
				if n > 8 && !t.deep {
					continue
				}
				r.Case(func() string { return fmt.Sprintf("strassen self %s %v size %d crossover %d", t.name, f, n, cross) }, func() error {
					return first(func() error { return square(family(n, n, 6, t.neg1(), T(2)), f, cross) },
						func() error { return square(family(n, n, 8, T(3), t.neg1()), f, cross) })
				})
			}
		}
	}
	r.Group("sizes", "every m,k,n up to 5 (and square to 9, 16) with crossovers -1..5, family contents, rotating formats")
	var sh [][3]int
	top := 3
	if t.deep {
		top = 5
	}
	for m := 0; m <= top; m++ {
		for k := 0; k <= top; k++ {
			for n := 0; n <= top; n++ {
				sh = append(sh, [3]int{m, k, n})
			}
		}
	}
	if t.deep {
		for n := 6; n <= 9; n++ {
			sh = append(sh, [3]int{n, n, n}, [3]int{n, n, n + 1}, [3]int{n - 1, n, n}, [3]int{2 * n, n, n}, [3]int{n, n, 2 * n})
		}
		sh = append(sh, [3]int{16, 16, 16}, [3]int{12, 12, 12})
		if r.Thorough {
			sh = append(sh, [3]int{17, 17, 17}, [3]int{18, 18, 18}, [3]int{20, 20, 20}, [3]int{24, 24, 24})
		}
	}
	for si, s := range sh {
		for cross := -1; cross <= 5; cross++ {
			si, s, cross := si, s, cross
			r.Case(func() string { return fmt.Sprintf("strassenf %s %v crossover %d", t.name, s, cross) }, func() error {
				ks := [][2]int{{1, 6}, {8, 1}, {2, 3}, {6, 8}}
				if s[0]*s[1]*s[2] > 1500 {
					ks = ks[:1]
					if cross < 1 && t.name != "float64" {
						return nil
					}
				}
				for i, kk := range ks {
					fa := fmts(s[1])
					fb := fmts(s[2])
					if err := run(family(s[0], s[1], kk[0], t.neg1(), T(2)), family(s[1], s[2], kk[1], T(3), t.neg1()), fa[(si+i)%len(fa)], fb[(si+2*i+cross+1)%len(fb)], cross); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	if t.name != "float64" {
		return
	}
	r.Group("default crossover", "sizes around the default crossover of 64 and its double")
	sz := []int{63, 64, 65, 66, 67}
	if r.Thorough {
		sz = append(sz, 68, 70, 72, 128, 130, 132)
	}
	for _, n := range sz {
		n := n
		r.Case(func() string { return fmt.Sprintf("strassen default %d", n) }, func() error {
			ma, mb := family(n, n, 6, t.neg1(), T(2)), family(n, n, 8, T(3), t.neg1())
			r.Step(1)
			a := mk(fDEN, ma, 1)
			return first(func() error {
				return expect[T](strassen.Multiply[T](bg, a, mk(fDEN, mb, 1)), model.Mul(ma, mb), "Strassen default crossover")
			}, func() error {
				return expect[T](strassen.Multiply[T](bg, a, a), model.Mul(ma, ma), "Strassen square, default crossover")
			})
		})
	}
}
