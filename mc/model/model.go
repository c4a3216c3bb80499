// Package model is the reference: a plain dense array and textbook loops.
package model

import (
	"fmt"
	"strings"

	"github.com/rossmerr/graphblas/constraints"
)

// Mat is an R x C array of values.
type Mat[T constraints.Type] struct {
	R, C int
	D    []T
}

func New[T constraints.Type](r, c int) Mat[T] { return Mat[T]{r, c, make([]T, r*c)} }

func (m Mat[T]) At(r, c int) T     { return m.D[r*m.C+c] }
func (m Mat[T]) Set(r, c int, v T) { m.D[r*m.C+c] = v }
func (m Mat[T]) Clone() Mat[T] {
	return Mat[T]{m.R, m.C, append([]T(nil), m.D...)}
}

// Same compares values, treating NaN as equal to NaN.
func Same[T comparable](a, b T) bool { return a == b || (a != a && b != b) }

func (m Mat[T]) Equal(o Mat[T]) bool {
	if m.R != o.R || m.C != o.C {
		return false
	}
	for i := range m.D {
		if !Same(m.D[i], o.D[i]) {
			return false
		}
	}
	return true
}

func (m Mat[T]) NNZ() int {
	var z T
	n := 0
	for _, v := range m.D {
		if v != z {
			n++
		}
	}
	return n
}

func (m Mat[T]) Rows() [][]T {
	out := make([][]T, m.R)
	for r := range out {
		out[r] = append([]T(nil), m.D[r*m.C:(r+1)*m.C]...)
	}
	return out
}

func (m Mat[T]) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%dx%d[", m.R, m.C)
	for r := 0; r < m.R; r++ {
		if r > 0 {
			b.WriteString(" / ")
		}
		for c := 0; c < m.C; c++ {
			if c > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(&b, "%v", m.At(r, c))
		}
	}
	b.WriteByte(']')
	return b.String()
}

func Transpose[T constraints.Type](a Mat[T]) Mat[T] {
	o := New[T](a.C, a.R)
	for r := 0; r < a.R; r++ {
		for c := 0; c < a.C; c++ {
			o.Set(c, r, a.At(r, c))
		}
	}
	return o
}

func Zip[T constraints.Number](a, b Mat[T], f func(x, y T) T) Mat[T] {
	o := New[T](a.R, a.C)
	for i := range o.D {
		o.D[i] = f(a.D[i], b.D[i])
	}
	return o
}

func Map[T constraints.Number](a Mat[T], f func(x T) T) Mat[T] {
	o := New[T](a.R, a.C)
	for i := range o.D {
		o.D[i] = f(a.D[i])
	}
	return o
}

func Mul[T constraints.Number](a, b Mat[T]) Mat[T] {
	o := New[T](a.R, b.C)
	for i := 0; i < a.R; i++ {
		for j := 0; j < b.C; j++ {
			var s T
			for l := 0; l < a.C; l++ {
				s += a.At(i, l) * b.At(l, j)
			}
			o.Set(i, j, s)
		}
	}
	return o
}

// Decode writes the n-th content over the alphabet into an r x c array.
func Decode[T constraints.Type](r, c int, alpha []T, n int) Mat[T] {
	m := New[T](r, c)
	for i := range m.D {
		m.D[i] = alpha[n%len(alpha)]
		n /= len(alpha)
	}
	return m
}

// Pow is the number of contents of k cells over a alphabet values.
func Pow(a, k int) int {
	n := 1
	for i := 0; i < k; i++ {
		n *= a
	}
	return n
}
