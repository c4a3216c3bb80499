package main

import (
	"fmt"
	"reflect"
	"slices"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"verif.local/mc/rep"
)

// Formats of the caller's own: implementations of the Matrix and Vector interfaces other than the
// library's. Operations are documented on the interfaces, so they must serve these as well.

// ownDense stores every cell, as the dense formats do; being unregistered it counts as not sparse.
type ownDense[T constraints.Number] struct {
	mirror[T]
	insideDense[T]
}

// ownSparse stores nonzero cells only, is registered as sparse, and enumerates backwards
// (the order of an enumeration is not specified).
type ownSparse[T constraints.Number] struct {
	mirror[T]
	insideSparse[T]
}

// ownVector is a dense vector enumerating backwards.
type ownVector[T constraints.Number] struct {
	mirror[T]
	insideVector[T]
}

// What they embed has its own methods further down, such as RawMatrix and SetReturnPointer: these are not
// part of the interfaces, and what they give access to is the mirror image.
type insideDense[T constraints.Number] struct{ *gb.DenseMatrixNumber[T] }
type insideSparse[T constraints.Number] struct{ *gb.CSRMatrix[T] }
type insideVector[T constraints.Number] struct{ *gb.DenseVectorNumber[T] }

// mirror implements the Matrix interface over another matrix, whose last cell is its first.
type mirror[T constraints.Number] struct{ in gb.Matrix[T] }

func ownOf[T constraints.Number](in gb.Matrix[T]) gb.Matrix[T] {
	switch x := in.(type) {
	case *gb.DenseMatrixNumber[T]:
		return &ownDense[T]{mirror[T]{in}, insideDense[T]{x}}
	case *gb.CSRMatrix[T]:
		return &ownSparse[T]{mirror[T]{in}, insideSparse[T]{x}}
	case *gb.DenseVectorNumber[T]:
		return &ownVector[T]{mirror[T]{in}, insideVector[T]{x}}
	}
	panic(fmt.Sprintf("no mirror of %T", in))
}

// alike is an empty matrix of another shape.
func (s *mirror[T]) alike(r, c int) gb.Matrix[T] {
	if _, ok := s.in.(*gb.CSRMatrix[T]); ok {
		return ownOf[T](gb.NewCSRMatrix[T](r, c))
	}
	return ownOf[T](gb.NewDenseMatrixN[T](r, c))
}

func (s *mirror[T]) self() gb.Matrix[T]               { return ownOf(s.in) }
func (s *mirror[T]) at(r, c int) (int, int)           { return s.in.Rows() - 1 - r, s.in.Columns() - 1 - c }
func (s *mirror[T]) At(r, c int) T                    { r, c = s.at(r, c); return s.in.At(r, c) }
func (s *mirror[T]) Set(r, c int, v T)                { r, c = s.at(r, c); s.in.Set(r, c, v) }
func (s *mirror[T]) Update(r, c int, f func(T) T)     { r, c = s.at(r, c); s.in.Update(r, c, f) }
func (s *mirror[T]) Element(r, c int) bool            { return s.At(r, c) != 0 }
func (s *mirror[T]) Copy() gb.Matrix[T]               { return ownOf(s.in.Copy()) }
func (s *mirror[T]) CopyLogical() gb.MatrixLogical[T] { return s.Copy() }
func (s *mirror[T]) Scalar(alpha T) gb.Matrix[T]      { return gb.Scalar(bg, s.self(), alpha) }

func (s *mirror[T]) RowsAtToArray(r int) []T {
	l := s.in.RowsAtToArray(s.in.Rows() - 1 - r)
	slices.Reverse(l)
	return l
}

func (s *mirror[T]) RowsAt(r int) gb.VectorLogial[T] {
	return reversed(s.in.RowsAt(s.in.Rows() - 1 - r))
}

func (s *mirror[T]) ColumnsAt(c int) gb.VectorLogial[T] {
	return reversed(s.in.ColumnsAt(s.in.Columns() - 1 - c))
}

func reversed[T constraints.Number](v gb.VectorLogial[T]) gb.VectorLogial[T] {
	o := gb.NewDenseVectorN[T](v.Length())
	for i := 0; i < v.Length(); i++ {
		o.SetVec(i, v.AtVec(v.Length()-1-i))
	}
	return o
}

func (s *mirror[T]) Multiply(m gb.Matrix[T]) gb.Matrix[T] {
	o := s.alike(s.in.Rows(), m.Columns())
	gb.MatrixMatrixMultiply(bg, s.self(), m, nil, o)
	return o
}

func (s *mirror[T]) Add(m gb.Matrix[T]) gb.Matrix[T] {
	o := s.Copy()
	gb.Add(bg, s.self(), m, nil, o)
	return o
}

func (s *mirror[T]) Subtract(m gb.Matrix[T]) gb.Matrix[T] {
	o := s.Copy()
	gb.Subtract(bg, s.self(), m, nil, o)
	return o
}

func (s *mirror[T]) Negative() gb.MatrixLogical[T] {
	o := s.Copy()
	gb.Negative(bg, s.self(), nil, o)
	return o
}

func (s *mirror[T]) Transpose() gb.MatrixLogical[T] {
	o := s.alike(s.in.Columns(), s.in.Rows())
	gb.Transpose[T](bg, s.self(), nil, o)
	return o
}

func (s *mirror[T]) Equal(m gb.MatrixLogical[T]) bool    { return gb.Equal[T](bg, s.self(), m) }
func (s *mirror[T]) NotEqual(m gb.MatrixLogical[T]) bool { return gb.NotEqual[T](bg, s.self(), m) }
func (s *mirror[T]) Enumerate() gb.Enumerate[T]          { return &mirrored[T]{s, s.in.Enumerate()} }
func (s *mirror[T]) Map() gb.Map[T]                      { return &mirroredMap[T]{s, s.in.Map()} }

type mirrored[T constraints.Number] struct {
	s *mirror[T]
	gb.Enumerate[T]
}

func (m *mirrored[T]) Next() (int, int, T) {
	r, c, v := m.Enumerate.Next()
	r, c = m.s.at(r, c)
	return r, c, v
}

type mirroredMap[T constraints.Number] struct {
	s     *mirror[T]
	inner gb.Map[T]
}

func (m *mirroredMap[T]) HasNext() bool { return m.inner.HasNext() }

func (m *mirroredMap[T]) Map(f func(int, int, T) T) {
	m.inner.Map(func(r, c int, v T) T {
		r, c = m.s.at(r, c)
		return f(r, c, v)
	})
}

func (s *ownVector[T]) AtVec(i int) T     { return s.At(i, 0) }
func (s *ownVector[T]) SetVec(i int, v T) { s.Set(i, 0, v) }

// ownFormats makes the caller's own formats stand for the library's in every enumeration of formats.
func ownFormats() {
	gb.RegisterMatrix(reflect.TypeOf((*ownSparse[float64])(nil)).Elem())
	matF = []fm{fOWD, fOWS, fCSC}
	vecF = []fm{fOWV, fSV}
	matFL = []fm{fOWD, fOWS, fDENL}
	vecFL = []fm{fOWV, fDVL}
}

// plainSparse is not generic.
type plainSparse struct{ gb.Matrix[float64] }

// lateSparse is registered by another instantiation than those asked about.
type lateSparse[T constraints.Number] struct{ gb.Matrix[T] }

// These are not registered, whatever their names have in common with those that are.
type (
	neverSparse[T constraints.Number]             struct{ gb.Matrix[T] }
	CSRMatrixView[T constraints.Number]           struct{ gb.Matrix[T] }
	MyCSRMatrix[T constraints.Number]             struct{ gb.Matrix[T] }
	csrMatrix[T constraints.Number]               struct{ gb.Matrix[T] }
	CSR[T constraints.Number]                     struct{ gb.Matrix[T] }
	SparseVectorOfCSCMatrix[T constraints.Number] struct{ gb.Matrix[T] }
	Sparse[T constraints.Number]                  struct{ gb.Matrix[T] }
	lateSparse2[T constraints.Number]             struct{ gb.Matrix[T] }
	plain                                         struct{ gb.Matrix[float64] }
	plainSparseView                               struct{ gb.Matrix[float64] }
)

func (t tc[T]) registration(r *rep.R, after bool) {
	r.Group("registration", "a registered type of the caller's own counts as sparse in every instantiation from then on, whichever one was registered; nothing else changes class; for every element type, before and after")
	// asked in every process: classes must not be remembered from before
	err := func() error {
		want := func(x gb.MatrixLogical[T], w bool) error {
			r.Step(1)
			if g := gb.IsSparseMatrix(x); g != w {
				return rep.Errf("IsSparseMatrix(%T) = %v, registered %v", x, g, after)
			}
			return nil
		}
		in := gb.NewCSRMatrix[T](2, 2)
		for _, f := range []fm{fCSR, fCSC, fDEN, fSV, fDV, fDENL, fDVL} {
			if err := want(emptyL[T](f, 2, 1), f.sparse()); err != nil {
				return err
			}
		}
		return first(
			func() error { return want(&lateSparse[T]{in}, after) },
			func() error { return want(&neverSparse[T]{in}, false) },
			func() error { return want(&CSRMatrixView[T]{in}, false) },
			func() error { return want(&MyCSRMatrix[T]{in}, false) },
			func() error { return want(&csrMatrix[T]{in}, false) },
			func() error { return want(&CSR[T]{in}, false) },
			func() error { return want(&SparseVectorOfCSCMatrix[T]{in}, false) },
			func() error { return want(&Sparse[T]{in}, false) },
			func() error { return want(&lateSparse2[T]{in}, false) },
			func() error { return want(ownOf[T](gb.NewDenseMatrixN[T](2, 2)), false) },
			func() error { return equalOwn(&lateSparse[T]{in}, &neverSparse[T]{in}, gb.NewDenseMatrixN[T](2, 2)) },
		)
	}()
	r.Case(func() string { return fmt.Sprintf("class %s registered %v", t.name, after) }, func() error { return err })
	if t.name != "float64" {
		return
	}
	g := gb.IsSparseMatrix[float64](&plainSparse{gb.NewCSRMatrix[float64](1, 1)})
	h := gb.IsSparseMatrix[float64](&plain{gb.NewCSRMatrix[float64](1, 1)}) || gb.IsSparseMatrix[float64](&plainSparseView{gb.NewCSRMatrix[float64](1, 1)})
	r.Case(func() string { return fmt.Sprintf("class of a plain type, registered %v", after) }, func() error {
		r.Step(1)
		if g != after || h {
			return rep.Errf("IsSparseMatrix = %v, registered %v; of types that are not %v", g, after, h)
		}
		return nil
	})
}

// equalOwn compares zero matrices of equal shapes, none of which is told apart by its class.
func equalOwn[T constraints.Number](xs ...gb.MatrixLogical[T]) error {
	for i := range xs {
		if !gb.Equal(bg, xs[i], xs[i]) {
			return rep.Errf("%T is not equal to itself", xs[i])
		}
	}
	return nil
}

// P33 runs the enumerations of the other properties with formats of the caller's own.
func p33(r *rep.R) {
	each(func(t tcase) { t.registration(r, false) })
	gb.RegisterMatrix(reflect.TypeOf((*plainSparse)(nil)).Elem())
	gb.RegisterMatrix(reflect.TypeOf((*lateSparse[int8])(nil)).Elem())
	each(func(t tcase) { t.registration(r, true) })
	ownFormats()
	types = types[:2]
	for _, p := range []struct {
		name string
		run  func(t tcase)
	}{
		{"P05", func(t tcase) { t.P05(r) }},
		{"P06", func(t tcase) { t.P06(r) }},
		{"P07", func(t tcase) { t.P07(r) }},
		{"P08", func(t tcase) { t.P08(r) }},
		{"P09", func(t tcase) { t.P09(r) }},
		{"P10", func(t tcase) { t.P10(r) }},
		{"P11", func(t tcase) { t.P11(r) }},
		{"P12", func(t tcase) { t.P12(r) }},
		{"P13", func(t tcase) { t.P13(r) }},
		{"P14", func(t tcase) { t.P14(r) }},
		{"P15", func(t tcase) { t.P15(r) }},
		{"P16", func(t tcase) { t.P16(r) }},
		{"P17", func(t tcase) { t.P17(r) }},
		{"P20", func(t tcase) { t.P20(r) }},
		{"P22", func(t tcase) { t.P22(r) }},
		{"P24", func(t tcase) { t.P24(r) }},
		{"P26", func(t tcase) { t.P26(r) }},
		{"P31", func(t tcase) { t.P31(r) }},
	} {
		r.Prefix = p.name + " "
		each(p.run)
	}
	for _, p := range []struct {
		name string
		run  func(*rep.R)
	}{{"P25", p25}, {"P27", p27}, {"P28", p28}, {"P29", p29}} {
		r.Prefix = p.name + " "
		p.run(r)
	}
}
