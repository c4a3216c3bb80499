package main

import (
	"fmt"

	gb "github.com/rossmerr/graphblas"
)

// format is a storage format with a shape.
type format struct {
	name  string
	r, c  int
	dense bool
	mk    func(r, c int) gb.Matrix[float64]
}

func (f format) String() string { return fmt.Sprintf("%s %dx%d", f.name, f.r, f.c) }

var formats = []format{
	{"CSR", 2, 2, false, func(r, c int) gb.Matrix[float64] { return gb.NewCSRMatrix[float64](r, c) }},
	{"CSC", 2, 2, false, func(r, c int) gb.Matrix[float64] { return gb.NewCSCMatrix[float64](r, c) }},
	{"dense", 2, 2, true, func(r, c int) gb.Matrix[float64] { return gb.NewDenseMatrixN[float64](r, c) }},
	{"sparse vector", 3, 1, false, func(r, c int) gb.Matrix[float64] { return gb.NewSparseVector[float64](r) }},
	{"dense vector", 3, 1, true, func(r, c int) gb.Matrix[float64] { return gb.NewDenseVectorN[float64](r) }},
}

// contents is the number of contents: which cells are nonzero.
func (f format) contents() int { return 1 << (f.r * f.c) }

func (f format) cells(code int) []float64 {
	out := make([]float64, f.r*f.c)
	for i := range out {
		if code>>i&1 == 1 {
			out[i] = float64(2*i + 1)
			if i == 1 {
				out[i] = -4
			}
		}
	}
	return out
}

func (f format) of(cells []float64) gb.Matrix[float64] {
	m := f.mk(f.r, f.c)
	for i := len(cells) - 1; i >= 0; i-- {
		if cells[i] != 0 {
			m.Set(i/f.c, i%f.c, cells[i])
		}
	}
	return m
}

func (f format) make(code int) gb.Matrix[float64] { return f.of(f.cells(code)) }
func (f format) empty() gb.Matrix[float64]        { return f.mk(f.r, f.c) }

func (f format) same(m gb.Matrix[float64], code int) string {
	for i, w := range f.cells(code) {
		if g := m.At(i/f.c, i%f.c); g != w {
			return fmt.Sprintf("cell %d of an operand reads %v, was %v", i, g, w)
		}
	}
	return ""
}

func (f format) read(m gb.MatrixLogical[float64]) string {
	var out []float64
	for i := 0; i < f.r*f.c; i++ {
		out = append(out, m.At(i/f.c, i%f.c))
	}
	return fmt.Sprint(out)
}

type maskSpec int

func (f format) masks() []maskSpec { return []maskSpec{0, 2, maskSpec(f.contents() - 1)} }

func (k maskSpec) on(i int) bool { return k>>i&1 == 1 }

func (k maskSpec) mask(f format) gb.Mask {
	if k == 0 {
		return nil
	}
	m := gb.NewDenseMatrixN[float64](f.r, f.c)
	for i := 0; i < f.r*f.c; i++ {
		if k.on(i) {
			m.Set(i/f.c, i%f.c, -1)
		}
	}
	return m
}
