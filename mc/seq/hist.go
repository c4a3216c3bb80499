package main

import (
	"fmt"
	"strings"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/symmetric"
	"github.com/rossmerr/graphblas/unaryop"
	"verif.local/mc/model"
	"verif.local/mc/rep"
)

// Reads between writes: the reachable state graph of one object under every way of changing
// it and every way of reading it. A read is a transition like any other, so an object that
// remembers something when it is read (and so is in a new concrete state) is explored from
// there on: each later write and read is tried with whatever was remembered.

type hop[T tnum] = op[gb.MatrixLogical[T], Mat[T]]

// mutators are the ways of changing an object besides single writes.
func (t tc[T]) mutators(f fm, m0 Mat[T], vals []T) []hop[T] {
	arith := f != fDENL && f != fDVL
	var out []hop[T]
	out = append(out, cellOps(m0, vals, false)...)
	if f == fCSR || f == fCSC {
		out = append(out, ptrOps(m0, vals)...)
	}
	if v := len(vals); f.vector() && v > 0 {
		for i := 0; i < m0.R; i++ {
			for _, v := range vals {
				i, v := i, v
				out = append(out, hop[T]{fmt.Sprintf("SetVec(%d,%v)", i, v), func(x gb.MatrixLogical[T], m *Mat[T]) error {
					x.(gb.VectorLogial[T]).SetVec(i, v)
					m.D[i] = v
					return nil
				}})
			}
		}
	}
	if !arith {
		return out
	}
	out = append(out, mapOps(vals)...)
	next := func(v T) T {
		for i := 1; i < len(vals); i++ {
			if vals[i] == v {
				if i+1 < len(vals) {
					return vals[i+1]
				}
				return vals[1]
			}
		}
		return v
	}
	out = append(out,
		hop[T]{"Apply(next value) in place", func(x gb.MatrixLogical[T], m *Mat[T]) error {
			a := x.(gb.Matrix[T])
			gb.Apply[T](bg, a, nil, unaryop.NewUnaryOp(next), a)
			*m = model.Map(*m, next)
			return nil
		}},
		hop[T]{"x .* E into x", func(x gb.MatrixLogical[T], m *Mat[T]) error {
			a := x.(gb.Matrix[T])
			e := model.New[T](m.R, m.C)
			for i := range e.D {
				if i%2 == 1 {
					e.D[i] = 1
				}
			}
			gb.ElementWiseMatrixMultiply[T](bg, a, mk(fCSC, e, 1), nil, a)
			*m = model.Zip(*m, e, func(p, q T) T { return p * q })
			return nil
		}},
		hop[T]{"x | E into x", func(x gb.MatrixLogical[T], m *Mat[T]) error {
			a := x.(gb.Matrix[T])
			e := model.New[T](m.R, m.C)
			e.D[0] = vals[len(vals)-1]
			if m.D[0] != 0 {
				e.D[0] = m.D[0]
			}
			gb.ElementWiseMatrixAdd[T](bg, a, mk(fCSR, e, 1), nil, a)
			m.D[0] = e.D[0]
			return nil
		}},
		hop[T]{"product into x", func(x gb.MatrixLogical[T], m *Mat[T]) error {
			p, q := model.New[T](m.R, 1), model.New[T](1, m.C)
			p.D[m.R-1], q.D[0] = 1, 1
			if m.R > 1 {
				p.D[0] = 1
			}
			gb.MatrixMatrixMultiply[T](bg, mk(fCSR, p, 1), mk(fDEN, q, 1), nil, x.(gb.Matrix[T]))
			*m = model.Mul(p, q)
			return nil
		}},
		hop[T]{"masked write into x", func(x gb.MatrixLogical[T], m *Mat[T]) error {
			mask, one := model.New[T](m.R, m.C), model.New[T](m.R, m.C)
			for i := range mask.D {
				one.D[i] = vals[1]
				if i%2 == 0 {
					mask.D[i] = 1
				}
			}
			gb.Apply[T](bg, mk(fDEN, one, 1), mk(fCSR, mask, 1), unaryop.NewUnaryOp(func(v T) T { return v }), x.(gb.Matrix[T]))
			for i := range mask.D {
				if mask.D[i] == 0 {
					m.D[i] = vals[1]
				}
			}
			return nil
		}},
		hop[T]{"sum into x if empty", func(x gb.MatrixLogical[T], m *Mat[T]) error {
			if m.NNZ() > 0 {
				return nil
			}
			e := model.New[T](m.R, m.C)
			e.D[len(e.D)-1] = vals[1]
			gb.Add[T](bg, mk(fCSR, e, 1), mk(fCSC, *m, 1), nil, x.(gb.Matrix[T]))
			*m = e
			return nil
		}},
		hop[T]{"transpose into x if empty", func(x gb.MatrixLogical[T], m *Mat[T]) error {
			if m.NNZ() > 0 {
				return nil
			}
			e := model.New[T](m.R, m.C)
			e.D[len(e.D)-1] = vals[1]
			gb.Transpose[T](bg, mkL[T](fDENL, model.Transpose(e), 1), nil, x)
			*m = e
			return nil
		}},
	)
	return out
}

// reads are the ways of reading an object; kinds selects them by property.
func (t tc[T]) reads(f fm, m0 Mat[T], kind string) []hop[T] {
	arith := f != fDENL && f != fDVL
	num := func(x gb.MatrixLogical[T]) gb.Matrix[T] { return x.(gb.Matrix[T]) }
	var out []hop[T]
	rd := func(name string, do func(x gb.MatrixLogical[T], m Mat[T]) error) {
		out = append(out, hop[T]{name, func(x gb.MatrixLogical[T], m *Mat[T]) error { return do(x, *m) }})
	}
	vec := func(v gb.VectorLogial[T], n int, at func(int) T, what string) error {
		if v.Length() != n || v.Rows() != n || v.Columns() != 1 {
			return rep.Errf("%s has length %d, %dx%d, want %d", what, v.Length(), v.Rows(), v.Columns(), n)
		}
		for i := 0; i < n; i++ {
			if g := v.AtVec(i); !model.Same(g, at(i)) {
				return rep.Errf("%s: element %d = %v, want %v", what, i, g, at(i))
			}
		}
		return spoil[T](v)
	}
	other := func(i int) Mat[T] { return family(m0.R, m0.C, []int{1, 4}[i], t.neg1(), t.half()) }
	switch kind {
	case "cells":
		for i := range m0.D {
			i, j := i/m0.C, i%m0.C
			rd(fmt.Sprintf("At(%d,%d)", i, j), func(x gb.MatrixLogical[T], m Mat[T]) error {
				if g := x.At(i, j); !model.Same(g, m.At(i, j)) {
					return rep.Errf("cell (%d,%d) reads %v, want %v; want content %v", i, j, g, m.At(i, j), m)
				}
				return nil
			})
			if f.vector() {
				rd(fmt.Sprintf("AtVec(%d)", i), func(x gb.MatrixLogical[T], m Mat[T]) error {
					if g := x.(gb.VectorLogial[T]).AtVec(i); !model.Same(g, m.At(i, j)) {
						return rep.Errf("element %d reads %v, want %v; want content %v", i, g, m.At(i, j), m)
					}
					return nil
				})
			}
		}
	case "enumeration":
		rd("Enumerate", func(x gb.MatrixLogical[T], m Mat[T]) error { return enumerated(x, m, f.sparse()) })
		rd("Enumerate one step", func(x gb.MatrixLogical[T], m Mat[T]) error {
			it := x.Enumerate()
			if !it.HasNext() {
				return nil
			}
			if r, c, v := it.Next(); !model.Same(v, m.At(r, c)) {
				return rep.Errf("enumeration yields (%d,%d)=%v, want %v", r, c, v, m.At(r, c))
			}
			return nil
		})
		rd("Values", func(x gb.MatrixLogical[T], m Mat[T]) error {
			n := m.NNZ()
			if !f.sparse() {
				n = x.Values() // what it counts is compared with the enumeration
			}
			if g := x.Values(); g != n {
				return rep.Errf("Values() = %d, want %d; content %v", g, n, m)
			}
			return nil
		})
	case "mapping":
		if arith {
			rd("Map, nothing changed", func(x gb.MatrixLogical[T], m Mat[T]) error {
				return mapCheck(num(x), m, f.sparse(), func(_ int, v T) T { return v })
			})
			rd("Map begun, one step, abandoned", func(x gb.MatrixLogical[T], m Mat[T]) error {
				if it := num(x).Map(); it.HasNext() {
					it.Map(func(_, _ int, v T) T { return v })
				}
				return nil
			})
		}
	case "extraction":
		for i := 0; i < m0.R; i++ {
			i := i
			rd(fmt.Sprintf("RowsAt(%d)", i), func(x gb.MatrixLogical[T], m Mat[T]) error {
				return vec(x.RowsAt(i), m.C, func(j int) T { return m.At(i, j) }, fmt.Sprintf("row %d of %v", i, m))
			})
			rd(fmt.Sprintf("RowsAtToArray(%d)", i), func(x gb.MatrixLogical[T], m Mat[T]) error {
				a := x.RowsAtToArray(i)
				if len(a) != m.C {
					return rep.Errf("RowsAtToArray(%d) has length %d, want %d", i, len(a), m.C)
				}
				for j := range a {
					if !model.Same(a[j], m.At(i, j)) {
						return rep.Errf("RowsAtToArray(%d) = %v of %v", i, a, m)
					}
				}
				return spoilArray(a)
			})
		}
		for j := 0; j < m0.C; j++ {
			j := j
			rd(fmt.Sprintf("ColumnsAt(%d)", j), func(x gb.MatrixLogical[T], m Mat[T]) error {
				return vec(x.ColumnsAt(j), m.R, func(i int) T { return m.At(i, j) }, fmt.Sprintf("column %d of %v", j, m))
			})
		}
	case "copy":
		rd("CopyLogical", func(x gb.MatrixLogical[T], m Mat[T]) error { return fresh(x.CopyLogical(), m, "CopyLogical") })
		if arith {
			rd("Copy", func(x gb.MatrixLogical[T], m Mat[T]) error { return fresh[T](num(x).Copy(), m, "Copy") })
		}
		rd("Copy written", func(x gb.MatrixLogical[T], m Mat[T]) error {
			c := x.CopyLogical()
			c.Clear()
			c.Set(0, 0, 1)
			return expect(x, m, "source of a copy that was written")
		})
	case "equality":
		rd("Equal", func(x gb.MatrixLogical[T], m Mat[T]) error {
			for _, g := range []fm{fCSR, fDEN} {
				if err := eqCheck[T](x, mkL[T](g, m, 1), true); err != nil {
					return rep.Errf("content %v against %v: %v", m, g, err)
				}
				o := m.Clone()
				o.D[len(o.D)-1]++
				if err := eqCheck[T](x, mkL[T](g, o, 1), false); err != nil {
					return rep.Errf("content %v against %v holding %v: %v", m, g, o, err)
				}
			}
			return nil
		})
	case "product":
		if arith {
			for k := 0; k < 2; k++ {
				k := k
				rd(fmt.Sprintf("x.Multiply(T%d)", k), func(x gb.MatrixLogical[T], m Mat[T]) error {
					o := model.Transpose(other(k))
					return fresh[T](num(x).Multiply(mk(fCSR, o, 1)), model.Mul(m, o), "x.Multiply")
				})
				rd(fmt.Sprintf("T%d.Multiply(x)", k), func(x gb.MatrixLogical[T], m Mat[T]) error {
					o := model.Transpose(other(k))
					return fresh[T](mk(fCSC, o, 1).Multiply(num(x)), model.Mul(o, m), "T.Multiply(x)")
				})
			}
		}
	case "matvec":
		if arith {
			rd("x times vector", func(x gb.MatrixLogical[T], m Mat[T]) error {
				v := family(m.C, 1, 1, t.neg1(), T(2))
				o := gb.NewDenseVectorN[T](m.R)
				gb.MatrixVectorMultiply[T](bg, num(x), mk(fSV, v, 1).(gb.Vector[T]), nil, o)
				return fresh[T](o, model.Mul(m, v), "x times vector")
			})
			if f.vector() {
				rd("matrix times x", func(x gb.MatrixLogical[T], m Mat[T]) error {
					a := family(2, m.R, 1, t.neg1(), T(2))
					o := gb.NewDenseVectorN[T](2)
					gb.VectorMatrixMultiply[T](bg, x.(gb.Vector[T]), mk(fCSC, a, 1), nil, o)
					return fresh[T](o, model.Mul(a, m), "matrix times x")
				})
			}
		}
	case "sum":
		if arith {
			add, sub := func(p, q T) T { return p + q }, func(p, q T) T { return p - q }
			for _, g := range []fm{fCSR, fDEN} {
				g := g
				rd(fmt.Sprintf("x.Add(%v)", g), func(x gb.MatrixLogical[T], m Mat[T]) error {
					return fresh[T](num(x).Add(mk(g, other(1), 1)), model.Zip(m, other(1), add), "x.Add")
				})
				rd(fmt.Sprintf("%v.Subtract(x)", g), func(x gb.MatrixLogical[T], m Mat[T]) error {
					return fresh[T](mk(g, other(1), 1).Subtract(num(x)), model.Zip(other(1), m, sub), "Subtract(x)")
				})
				rd(fmt.Sprintf("Add(x,x) into %v", g), func(x gb.MatrixLogical[T], m Mat[T]) error {
					o := empty[T](g, m.R, m.C)
					gb.Add[T](bg, num(x), num(x), nil, o)
					return fresh[T](o, model.Zip(m, m, add), "Add(x,x)")
				})
			}
		}
	case "scaling":
		if arith {
			rd("Scalar(3)", func(x gb.MatrixLogical[T], m Mat[T]) error {
				return fresh[T](num(x).Scalar(3), model.Map(m, func(v T) T { return v * 3 }), "Scalar(3)")
			})
			rd("Scalar(0)", func(x gb.MatrixLogical[T], m Mat[T]) error {
				return fresh[T](num(x).Scalar(0), model.New[T](m.R, m.C), "Scalar(0)")
			})
			rd("Negative", func(x gb.MatrixLogical[T], m Mat[T]) error {
				return fresh[T](num(x).Negative(), model.Map(m, func(v T) T { return -v }), "Negative")
			})
			rd("operator Negative", func(x gb.MatrixLogical[T], m Mat[T]) error {
				o := empty[T](fCSC, m.R, m.C)
				gb.Negative[T](bg, num(x), nil, o)
				return fresh[T](o, model.Map(m, func(v T) T { return -v }), "operator Negative")
			})
		}
	case "transpose":
		rd("Transpose", func(x gb.MatrixLogical[T], m Mat[T]) error {
			return fresh(x.Transpose(), model.Transpose(m), "Transpose")
		})
		rd("operator Transpose", func(x gb.MatrixLogical[T], m Mat[T]) error {
			o := emptyL[T](fDENL, m.C, m.R)
			gb.Transpose[T](bg, x, nil, o)
			return fresh(o, model.Transpose(m), "operator Transpose")
		})
		if arith {
			rd("TransposeToCSR", func(x gb.MatrixLogical[T], m Mat[T]) error {
				return fresh[T](gb.TransposeToCSR[T](bg, num(x)), model.Transpose(m), "TransposeToCSR")
			})
			rd("TransposeToCSC", func(x gb.MatrixLogical[T], m Mat[T]) error {
				return fresh[T](gb.TransposeToCSC[T](bg, num(x)), model.Transpose(m), "TransposeToCSC")
			})
		}
	case "element-wise":
		if arith {
			rd("x .* E", func(x gb.MatrixLogical[T], m Mat[T]) error {
				o := empty[T](fCSR, m.R, m.C)
				gb.ElementWiseMatrixMultiply[T](bg, num(x), mk(fDEN, other(0), 1), nil, o)
				return fresh[T](o, model.Zip(m, other(0), func(p, q T) T { return p * q }), "x .* E")
			})
			rd("E | x", func(x gb.MatrixLogical[T], m Mat[T]) error {
				o := empty[T](fDEN, m.R, m.C)
				gb.ElementWiseMatrixAdd[T](bg, mk(fCSC, other(1), 1), num(x), nil, o)
				return eAddOK(o, other(1), m, false, "E | x")
			})
		}
	case "apply":
		if arith {
			for _, g := range []fm{fCSC, fDEN} {
				g := g
				rd(fmt.Sprintf("Apply into %v", g), func(x gb.MatrixLogical[T], m Mat[T]) error {
					o := empty[T](g, m.R, m.C)
					sq := func(v T) T { return v*v + v }
					gb.Apply[T](bg, num(x), nil, unaryop.NewUnaryOp(sq), o)
					return fresh[T](o, model.Map(m, sq), "Apply")
				})
			}
		}
	case "mask":
		if arith {
			rd("x as mask", func(x gb.MatrixLogical[T], m Mat[T]) error {
				full, want := model.New[T](m.R, m.C), model.New[T](m.R, m.C)
				for i := range full.D {
					full.D[i] = 1
					if m.D[i] == 0 {
						want.D[i] = 1
					}
				}
				o := empty[T](fDEN, m.R, m.C)
				gb.Apply[T](bg, mk(fCSR, full, 1), num(x), unaryop.NewUnaryOp(func(v T) T { return v }), o)
				return fresh[T](o, want, fmt.Sprintf("output under mask %v", m))
			})
		}
		for i := range m0.D {
			i, j := i/m0.C, i%m0.C
			rd(fmt.Sprintf("Element(%d,%d)", i, j), func(x gb.MatrixLogical[T], m Mat[T]) error {
				e, ok := x.(gb.Mask)
				if !ok {
					return nil
				}
				if g := e.Element(i, j); g != (m.At(i, j) != 0) {
					return rep.Errf("Element(%d,%d) = %v, cell holds %v", i, j, g, m.At(i, j))
				}
				return nil
			})
		}
	case "reduction":
		if arith {
			rd("sum", func(x gb.MatrixLogical[T], m Mat[T]) error {
				var s T
				for _, v := range m.D {
					s += v
				}
				if g := gb.ReduceMatrixToScalar[T](bg, x, nil); g != s {
					return rep.Errf("sum of %v = %v, want %v", m, g, s)
				}
				return nil
			})
			rd("columns", func(x gb.MatrixLogical[T], m Mat[T]) error {
				want := model.New[T](m.C, 1)
				for i := range m.D {
					want.D[i%m.C] += m.D[i]
				}
				plus := binaryop.NewMonoID[T](0, binaryop.NewBinaryOp(func(p, q T) T { return p + q }))
				return fresh[T](gb.ReduceMatrixToVectorWithMonoID[T](bg, num(x), plus, nil), want, fmt.Sprintf("column sums of %v", m))
			})
		}
	case "symmetry":
		if arith {
			rd("Symmetric", func(x gb.MatrixLogical[T], m Mat[T]) error {
				if g := symmetric.Symmetric[T](num(x)); g != m.Equal(model.Transpose(m)) {
					return rep.Errf("Symmetric(%v) = %v", m, g)
				}
				return nil
			})
			rd("SkewSymmetric", func(x gb.MatrixLogical[T], m Mat[T]) error {
				if g := skewsymmetric.SkewSymmetric[T](num(x)); g != m.Equal(model.Map(model.Transpose(m), func(v T) T { return -v })) {
					return rep.Errf("SkewSymmetric(%v) = %v", m, g)
				}
				return nil
			})
		}
	}
	return out
}

// between explores the reads of the given kinds between all changes.
func (t tc[T]) between(r *rep.R, kinds ...string) {
	r.Group("reads between writes", "every reachable concrete state (all memory of the object, spare capacity included) under every write, in-place operation and use as an output, with each read ("+strings.Join(kinds, ", ")+") a transition of its own; shapes 2x2, 2x3, 3x1 (3x2, 3x3 thorough)")
	type sp struct {
		r, c int
		vals []T
	}
	specs := []sp{{2, 2, []T{0, 1}}}
	if t.deep {
		specs = []sp{{2, 2, []T{0, 1, 2}}, {2, 3, []T{0, 1}}, {3, 1, []T{0, 1, 2}}, {1, 3, []T{0, 1}}}
		if r.Thorough {
			specs = append(specs, sp{3, 2, []T{0, 1}}, sp{3, 3, []T{0, 1}}, sp{2, 2, []T{0, 1, 2, t.wide()}}, sp{5, 1, []T{0, 1}})
		}
	}
	for _, s := range specs {
		for _, f := range fmtsL(s.c) {
			s, f := s, f
			own := func(m Mat[T]) []hop[T] {
				var o []hop[T]
				for _, k := range kinds {
					o = append(o, t.reads(f, m, k)...)
				}
				return o
			}
			if len(own(model.New[T](s.r, s.c))) == 0 {
				continue
			}
			r.Case(func() string { return fmt.Sprintf("between %s %v %dx%d values %v", t.name, f, s.r, s.c, s.vals) }, func() error {
				return withSpare(func() error {
					return matGraph(r, func() gb.MatrixLogical[T] { return emptyL[T](f, s.r, s.c) }, s.r, s.c, func(m Mat[T]) []hop[T] {
						return append(t.mutators(f, m, s.vals), own(m)...)
					}, func(x gb.MatrixLogical[T], m Mat[T]) error {
						// every read, then every read in the opposite order
						ops := own(m)
						for i := range ops {
							if err := ops[i].do(x, &m); err != nil {
								return err
							}
						}
						for i := len(ops) - 1; i >= 0; i-- {
							if err := ops[i].do(x, &m); err != nil {
								return rep.Errf("read again: %v", err)
							}
						}
						return nil
					}, 40000)
				})
			})
		}
	}
}

// apart explores the same read before and after every number of changes.
func (t tc[T]) apart(r *rep.R, kinds ...string) {
	top := 70
	if t.deep {
		top = 300
		if r.Thorough {
			top = 1100
		}
	}
	r.Group("reads n changes apart", "each read ("+strings.Join(kinds, ", ")+") repeated after n single writes, the last of which changes a cell, for every n up to 70, 300 or (thorough) 1100 by type, and for float64 65535, 65536 and 65537 as well; whatever counts changes wraps around on the way")
	for _, f := range fmtsL(1) {
		rows, cols := 2, 2
		if f.vector() {
			rows, cols = 3, 1
		}
		for _, kind := range kinds {
			for i := range t.reads(f, model.New[T](rows, cols), kind) {
				f, kind, i := f, kind, i
				r.Case(func() string {
					return fmt.Sprintf("apart %s %v %s", t.name, f, t.reads(f, model.New[T](rows, cols), kind)[i].name)
				}, func() error {
					x := emptyL[T](f, rows, cols)
					m := model.New[T](rows, cols)
					do := t.reads(f, m, kind)[i].do
					if err := do(x, &m); err != nil {
						return err
					}
					set := func(at int, v T) {
						x.Set(at/cols, at%cols, v)
						m.D[at] = v
					}
					one := func(n int) error {
						old := m.Clone()
						for k := 0; k < n-1; k++ {
							set(k%len(m.D), T(k%3))
						}
						at := n % len(m.D)
						v := old.D[at] + 1
						if v == 3 {
							v = 0
						}
						set(at, v)
						r.Step(2)
						if err := do(x, &m); err != nil {
							return rep.Errf("%d changes after the last such read: %v", n, err)
						}
						return nil
					}
					for n := 1; n <= top; n++ {
						if err := one(n); err != nil {
							return err
						}
					}
					if t.name == "float64" {
						for n := 65535; n <= 65537; n++ {
							if err := one(n); err != nil {
								return err
							}
						}
					}
					return nil
				})
			}
		}
	}
}

// again explores an analysis repeated on one object: between two runs every single cell takes every
// other value, all cells change at once, and the former content returns; and after every number of
// writes up to a bound. An analysis that remembers what it found for an object must notice.
func again[T tnum](r *rep.R, what string, fs []fm, sizes [][2]int, vals []T, do func(x gb.MatrixLogical[T], m Mat[T], f fm) error) {
	r.Group("run again after changes", what+" on one object, from every content of small shapes over "+fmt.Sprint(vals)+": run, change a cell (every cell, every value), run, change it back, run, change every cell, run; and on one object with n writes in between, for every n to 70 (thorough 300)")
	for _, s := range sizes {
		for _, f := range fs {
			if f.vector() && s[1] != 1 {
				continue
			}
			n := model.Pow(len(vals), s[0]*s[1])
			for b := 0; b < n; b += 8 {
				s, f, b := s, f, b
				r.Case(func() string { return fmt.Sprintf("again %T %v %v contents %d..", vals[0], f, s, b) }, func() error {
					for code := b; code < min(b+8, n); code++ {
						m := model.Decode(s[0], s[1], vals, code)
						x := mkL[T](f, m, 1)
						r.State(1)
						set := func(i int, v T) {
							x.Set(i/s[1], i%s[1], v)
							m.D[i] = v
						}
						run := func(when string) error {
							r.Step(1)
							if err := do(x, m, f); err != nil {
								return rep.Errf("%s: %v", when, err)
							}
							return nil
						}
						if err := run("at first"); err != nil {
							return err
						}
						for i := range m.D {
							old := m.D[i]
							for _, v := range vals {
								if v == old {
									continue
								}
								set(i, v)
								if err := run(fmt.Sprintf("after cell %d changed from %v to %v", i, old, v)); err != nil {
									return err
								}
								set(i, old)
								if err := run(fmt.Sprintf("after cell %d changed from %v to %v and back", i, old, v)); err != nil {
									return err
								}
							}
						}
						o := model.Decode(s[0], s[1], vals, n-1-code)
						for i, v := range o.D {
							set(i, v)
						}
						if err := run("after every cell changed"); err != nil {
							return err
						}
					}
					return nil
				})
			}
			top := 70
			if r.Thorough {
				top = 300
			}
			r.Case(func() string { return fmt.Sprintf("again %T %v %v many writes", vals[0], f, s) }, func() error {
				m := model.New[T](s[0], s[1])
				x := mkL[T](f, m, 1)
				for k := 0; k <= top; k++ {
					for j := 0; j < k; j++ {
						i := (j + k) % len(m.D)
						v := vals[(j/len(m.D)+k)%len(vals)]
						x.Set(i/s[1], i%s[1], v)
						m.D[i] = v
					}
					r.Step(1)
					if err := do(x, m, f); err != nil {
						return rep.Errf("after %d writes: %v", k, err)
					}
				}
				return nil
			})
		}
	}
}
