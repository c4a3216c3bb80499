package main

import (
	"fmt"
	"sync"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/unaryop"
	"verif.local/mc/model"
	"verif.local/mc/rep"
)

// Calls from within calls: whatever an operation calls back (an operator, a mask, a monoid, the
// acceptance test of a search, the body of an enumeration) may use the library itself, on other
// objects or to read the operand. Nothing that one call keeps to itself (a lock, a pool, a scratch
// object) may reach the other.

type nest[T tnum] struct {
	name string
	same bool // reads the operand of the outer operation
	do   func(x gb.MatrixLogical[T], m Mat[T]) error
}

var everyKind = []string{"cells", "enumeration", "mapping", "extraction", "copy", "equality", "product", "matvec", "sum", "scaling", "transpose", "element-wise", "apply", "mask", "reduction", "symmetry"}

// nestings are the operations tried within a callback, on objects of the given shape.
func (t tc[T]) nestings(r *rep.R, rows, cols int, f0 fm) []nest[T] {
	var out []nest[T]
	fill := family(rows, cols, 1, t.neg1(), T(2))
	vals := []T{0, 1, 2}
	onOther := func(f fm, h hop[T]) {
		out = append(out, nest[T]{fmt.Sprintf("%v %s", f, h.name), false, func(gb.MatrixLogical[T], Mat[T]) error {
			m := fill.Clone()
			x := mkL[T](f, m, 1)
			r.Step(1)
			if err := h.do(x, &m); err != nil {
				return err
			}
			return expect(x, m, "the object used within the callback")
		}})
	}
	fs := fmtsL(cols)
	for _, f := range fs {
		for _, h := range t.mutators(f, fill, vals) {
			onOther(f, h)
		}
		for _, k := range everyKind {
			for _, h := range t.reads(f, fill, k) {
				onOther(f, h)
			}
		}
	}
	for _, k := range everyKind {
		if k == "mapping" {
			continue // writes
		}
		for _, h := range t.reads(f0, fill, k) {
			h := h
			out = append(out, nest[T]{"the operand: " + h.name, true, func(x gb.MatrixLogical[T], m Mat[T]) error {
				r.Step(1)
				return h.do(x, &m)
			}})
		}
	}
	other := func(name string, do func() error) {
		out = append(out, nest[T]{name, false, func(gb.MatrixLogical[T], Mat[T]) error { return do() }})
	}
	n1 := t.neg1()
	for _, o := range maskedOps[T]() {
		for _, f := range fmts(cols) {
			o, f := o, f
			if o.alias < 0 && !f.vector() || o.vecOut && (rows != cols || f.vector()) || o.square && rows != cols {
				continue
			}
			ms := []Mat[T]{fill, family(rows, cols, 6, T(3), n1)}
			g, fo := f, f
			so := [2]int{rows, cols}
			if o.vecOut {
				ms[1] = family(cols, 1, 6, T(3), n1)
				g, fo = fSV, fDV
				so = [2]int{rows, 1}
			}
			prev := family(so[0], so[1], 1, T(7), T(5))
			other(fmt.Sprintf("masked %s %v", o.name, f), func() error {
				return checkMask(r, o, ms[:o.nin], []fm{f, g}[:o.nin], prev, fo, func() gb.Mask { return ownMask{so[0], so[1], func(i int) bool { return i%3 == 0 }} }, func(i int) bool { return i%3 == 0 }, "the caller's own")
			})
		}
	}
	if rows == cols {
		for _, f := range matF {
			f := f
			a := model.New[T](rows, rows)
			for i := 0; i < rows; i++ {
				a.Set((i+1)%rows, i, 1)
			}
			other(fmt.Sprintf("%v breadth-first search", f), func() error { return bfsCheck(r, a, f, 1, rows-1) })
			other(fmt.Sprintf("%v Strassen", f), func() error {
				return expect[T](strassen.Multiply[T](bg, mk(f, fill, 1), mk(f, a, 1)), model.Mul(fill, a), "the Strassen product")
			})
		}
	}
	other("new objects", func() error {
		for _, f := range fs {
			if err := expect[T](emptyL[T](f, rows, cols), model.New[T](rows, cols), "a new object"); err != nil {
				return err
			}
		}
		return nil
	})
	other("two levels of callbacks", func() error {
		sum := binaryop.NewMonoID[T](0, binaryop.NewBinaryOp(func(p, q T) T { return p + q }))
		x, o := mk(fCSR, fill, 1), empty[T](fDEN, rows, cols)
		var s T
		for _, v := range fill.D {
			s += v
		}
		bad := false
		gb.Apply[T](bg, x, nil, unaryop.NewUnaryOp(func(v T) T {
			bad = bad || gb.ReduceMatrixToScalarWithMonoID[T](bg, mk(fDEN, fill, 1), sum, nil) != s
			return v + v
		}), o)
		if bad {
			return rep.Errf("a reduction within an application within a callback differs from %v", s)
		}
		return expect[T](o, model.Map(fill, func(v T) T { return v + v }), "the application within a callback")
	})
	return out
}

// nested runs outer once for every operation within its callbacks.
func (t tc[T]) nested(r *rep.R, what string, sizes [][2]int, fs func(c int) []fm, outer func(f fm, m Mat[T], hook func(x gb.MatrixLogical[T])) error) {
	r.Group("calls from within "+what, "every operation of the library (every read and way of changing an object, every masked operation, searches, Strassen products), in every format, on an object of the same shape, and every read of the operand itself, made from within each callback")
	for _, s := range sizes {
		for _, f := range fs(s[1]) {
			list := t.nestings(r, s[0], s[1], f)
			for i := range list {
				s, f, n := s, f, list[i]
				r.Case(func() string { return fmt.Sprintf("nested %s %v %v in %s: %s", t.name, f, s, what, n.name) }, func() error {
					m := family(s[0], s[1], 1, t.neg1(), T(2))
					var mu sync.Mutex
					var bad error
					calls := 0
					err := outer(f, m, func(x gb.MatrixLogical[T]) {
						if x == nil && n.same {
							return
						}
						mu.Lock()
						defer mu.Unlock()
						calls++
						if bad == nil {
							bad = rep.Safely(func() error { return n.do(x, m) })
						}
					})
					mu.Lock()
					defer mu.Unlock()
					if bad != nil {
						return rep.Errf("within the callback: %v", bad)
					}
					if err != nil {
						return rep.Errf("the outer operation: %v", err)
					}
					return nil
				})
			}
		}
	}
}

func (t tc[T]) nestedSizes() [][2]int {
	if t.deep {
		return [][2]int{{2, 2}, {3, 1}, {2, 3}}
	}
	return [][2]int{{2, 2}}
}

func (t tc[T]) nestedApply(r *rep.R) {
	sq := func(v T) T { return v*v + 1 - 1 }
	for _, inPlace := range []bool{false, true} {
		inPlace := inPlace
		what := "an operator"
		if inPlace {
			what = "an operator, in place"
		}
		t.nested(r, what, t.nestedSizes(), fmts, func(f fm, m Mat[T], hook func(x gb.MatrixLogical[T])) error {
			for _, fo := range fmts(m.C) {
				a := mk(f, m, 1)
				o, own := a, gb.MatrixLogical[T](nil)
				if !inPlace {
					o, own = empty[T](fo, m.R, m.C), a
				}
				gb.Apply[T](bg, a, nil, unaryop.NewUnaryOp(func(v T) T {
					hook(own)
					return sq(v)
				}), o)
				if err := expect[T](o, model.Map(m, sq), "result of Apply"); err != nil {
					return err
				}
				if inPlace {
					return nil
				}
				if err := expect[T](a, m, "source of Apply"); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func (t tc[T]) nestedMask(r *rep.R) {
	n1 := t.neg1()
	for _, o := range maskedOps[T]() {
		o := o
		sizes := t.nestedSizes()
		if o.alias < 0 {
			sizes = [][2]int{{3, 1}}
		} else if o.square || o.vecOut {
			sizes = [][2]int{{2, 2}}
		}
		fs := func(c int) []fm {
			if o.alias < 0 {
				return vecF
			}
			if o.vecOut || o.square {
				return matF
			}
			return fmts(c)
		}
		t.nested(r, "the mask of "+o.name, sizes, fs, func(f fm, m Mat[T], hook func(x gb.MatrixLogical[T])) error {
			so := [2]int{m.R, m.C}
			ms := []Mat[T]{m, family(m.R, m.C, 6, T(3), n1)}
			g := f
			if o.vecOut {
				ms[1] = family(m.C, 1, 6, T(3), n1)
				so, g = [2]int{m.R, 1}, fSV
			}
			prev := family(so[0], so[1], 1, T(7), T(5))
			for _, bits := range []int{0, 1, 5, -1} {
				run := func(k gb.Mask) Mat[T] {
					in := []gb.Matrix[T]{mk(f, ms[0], 1), mk(g, ms[1], 1)}[:o.nin]
					fo := f
					if o.vecOut {
						fo = fDV
					}
					out := mk(fo, prev, 3)
					if o.alias > 0 {
						out = in[o.alias-1]
					}
					if w, ok := k.(*hookMask); ok && w != nil {
						w.hook = func() {
							if o.alias == 1 {
								hook(nil)
							} else {
								hook(in[0])
							}
						}
					}
					o.do(in, k, out)
					return read[T](out)
				}
				on := func(i int) bool { return bits>>i&1 == 1 }
				plain := run(nil)
				before := prev
				if o.alias > 0 {
					before = ms[o.alias-1]
				}
				got := run(&hookMask{ownMask{so[0], so[1], on}, nil})
				for i := range got.D {
					want := plain.D[i]
					if on(i) {
						want = before.D[i]
					}
					if !model.Same(got.D[i], want) {
						return rep.Errf("%s under a mask that uses the library: cell %d = %v, want %v", o.name, i, got.D[i], want)
					}
				}
			}
			return nil
		})
	}
}

// hookMask calls back before it answers.
type hookMask struct {
	ownMask
	hook func()
}

func (m *hookMask) Element(r, c int) bool {
	if m.hook != nil {
		m.hook()
	}
	return m.ownMask.Element(r, c)
}

func (t tc[T]) nestedReduce(r *rep.R) {
	for _, masked := range []bool{false, true} {
		masked := masked
		what := "the operator of a monoid"
		if masked {
			what = "the mask of a reduction"
		}
		t.nested(r, what, t.nestedSizes(), fmts, func(f fm, m Mat[T], hook func(x gb.MatrixLogical[T])) error {
			a := mk(f, m, 1)
			call := func() { hook(a) }
			sum := binaryop.NewMonoID[T](0, binaryop.NewBinaryOp(func(p, q T) T {
				if !masked {
					call()
				}
				return p + q
			}))
			mask := func(rows, cols int) gb.Mask {
				if !masked {
					return nil
				}
				return &hookMask{ownMask{rows, cols, func(i int) bool { return i == 0 }}, call}
			}
			var s T
			want := model.New[T](m.C, 1)
			for i, v := range m.D {
				if !masked || i > 0 {
					s += v
				}
				if !masked || i/m.C > 0 {
					want.D[i%m.C] += v
				}
			}
			if g := gb.ReduceMatrixToScalarWithMonoID[T](bg, a, sum, mask(m.R, m.C)); g != s {
				return rep.Errf("sum of %v = %v, want %v", m, g, s)
			}
			if f.vector() {
				if g := gb.ReduceVectorToScalarWithMonoID[T](bg, a.(gb.VectorLogial[T]), sum, mask(m.R, 1)); g != s {
					return rep.Errf("vector sum of %v = %v, want %v", m, g, s)
				}
			}
			return expect[T](gb.ReduceMatrixToVectorWithMonoID[T](bg, a, sum, mask(m.R, 1)), want, "column sums")
		})
	}
}

// nestedWalk uses the library between the steps of an enumeration.
func (t tc[T]) nestedWalk(r *rep.R) {
	t.nested(r, "an enumeration", t.nestedSizes(), fmtsL, func(f fm, m Mat[T], hook func(x gb.MatrixLogical[T])) error {
		x := mkL[T](f, m, 1)
		seen := make([]int, len(m.D))
		it := x.Enumerate()
		for it.HasNext() {
			hook(x)
			i, j, v := it.Next()
			if i < 0 || j < 0 || i >= m.R || j >= m.C || !model.Same(v, m.At(i, j)) {
				return rep.Errf("enumeration of %v %v yields (%d,%d)=%v", f, m, i, j, v)
			}
			seen[i*m.C+j]++
			hook(x)
		}
		for i, n := range seen {
			if n > 1 || n == 0 && m.D[i] != 0 {
				return rep.Errf("enumeration of %v %v yields cell %d %d times", f, m, i, n)
			}
		}
		return nil
	})
}

// nestedMap uses the library from within the function of a mapping.
func (t tc[T]) nestedMap(r *rep.R) {
	t.nested(r, "a mapping", t.nestedSizes(), fmts, func(f fm, m Mat[T], hook func(x gb.MatrixLogical[T])) error {
		x := mk(f, m, 1)
		n := 0
		for it := x.Map(); it.HasNext(); {
			it.Map(func(i, j int, v T) T {
				hook(nil)
				n++
				return v + v
			})
			hook(nil)
		}
		if n < m.NNZ() {
			return rep.Errf("mapping of %v %v visits %d cells", f, m, n)
		}
		return expect[T](x, model.Map(m, func(v T) T { return v + v }), "mapped")
	})
}

// nestedUpdate uses the library from within the function of an update.
func (t tc[T]) nestedUpdate(r *rep.R) {
	t.nested(r, "an update", t.nestedSizes(), fmtsL, func(f fm, m Mat[T], hook func(x gb.MatrixLogical[T])) error {
		m = m.Clone()
		x := mkL[T](f, m, 1)
		for i := range m.D {
			x.Update(i/m.C, i%m.C, func(v T) T {
				hook(nil)
				return v + 1
			})
			m.D[i]++
		}
		return expect(x, m, "updated")
	})
}

// nestedLocked does so through a lock-protected matrix.
func (t tc[T]) nestedLocked(r *rep.R) {
	t.nested(r, "an update of a lock-protected matrix", t.nestedSizes(), fmts, func(f fm, m Mat[T], hook func(x gb.MatrixLogical[T])) error {
		m = m.Clone()
		w, o := gb.NewMutexMatrix(mk(f, m, 1)), gb.NewMutexMatrix(mk(f, m, 1))
		for i := range m.D {
			var bad error
			w.Update(i/m.C, i%m.C, func(v T) T {
				hook(nil)
				// another lock-protected matrix is another lock
				was := o.At(i/m.C, i%m.C)
				o.Set(i/m.C, i%m.C, was+2)
				o.Update(i/m.C, i%m.C, func(v T) T { return v - 1 })
				if !model.Same(v, was) || !model.Same(o.At(i/m.C, i%m.C), was+1) {
					bad = rep.Errf("cell %d of two lock-protected matrices: %v and %v, then %v", i, v, was, o.At(i/m.C, i%m.C))
				}
				return v + 1
			})
			if bad != nil {
				return bad
			}
			m.D[i]++
		}
		for i := range m.D {
			if g := w.At(i/m.C, i%m.C); !model.Same(g, m.D[i]) {
				return rep.Errf("lock-protected %v: cell %d = %v, want %v", f, i, g, m.D[i])
			}
		}
		return nil
	})
}

// nestedSearch uses the library from within the acceptance test of a search.
func (t tc[T]) nestedSearch(r *rep.R) {
	t.nested(r, "a search", [][2]int{{2, 2}, {4, 4}}, func(int) []fm { return matF }, func(f fm, m Mat[T], hook func(x gb.MatrixLogical[T])) error {
		g := model.New[T](m.R, m.R)
		for i := 0; i < m.R; i++ {
			g.Set((i+1)%m.R, i, 1)
		}
		for s := 0; s < m.R; s += m.R - 1 {
			if err := bfsOn(r, mk(f, g, 1), g, f, s, func() { hook(nil) }); err != nil {
				return err
			}
		}
		return nil
	})
}
