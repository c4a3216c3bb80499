package main

import (
	"fmt"
	"math"
	"sort"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/unaryop"
	"verif.local/mc/model"
	"verif.local/mc/rep"
)

// Far objects: compressed objects with a dimension no array could have, and objects of every
// format longer than 16 bits count. Their contents are small sets of cells around the powers
// of two where a narrower index type wraps.

const (
	farN  = 1<<40 + 3
	longN = 1<<16 + 4465
)

type spot struct{ i, j int }

type farShape struct {
	f    fm
	r, c int
}

func (s farShape) String() string { return fmt.Sprintf("%v %dx%d", s.f, s.r, s.c) }

// far reports whether the object has a dimension too long for an array.
func (s farShape) far() bool { return s.r > longN || s.c > longN }

func farShapes() []farShape {
	return []farShape{{fCSR, 2, farN}, {fCSC, farN, 2}, {fSV, farN, 1}, {fCSR, longN, 2}, {fCSC, 2, longN}, {fDEN, longN, 1}, {fDEN, 1, longN}, {fDV, longN, 1}}
}

func farIndexes(n int, dense bool) []int {
	all := []int{0, 1, 3, 127, 128, 255, 256, 259, 32767, 32768, 65535, 65536, 65537, 65539, 1<<31 - 1, 1 << 31, 1<<31 + 3, 1<<32 - 1, 1 << 32, 1<<32 + 3, 1<<33 + 1, n - 1}
	if dense {
		all = []int{0, 3, 255, 259, 65535, 65539, n - 1}
	}
	seen := map[int]bool{}
	var out []int
	for _, v := range all {
		if v >= 0 && v < n && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	sort.Ints(out)
	return out
}

func (s farShape) spots() []spot {
	var out []spot
	for _, i := range farIndexes(s.r, !s.f.sparse()) {
		for _, j := range farIndexes(s.c, !s.f.sparse()) {
			out = append(out, spot{i, j})
		}
	}
	return out
}

type farMap[T constraints.Type] map[spot]T

func farValue[T tnum](k int) T { return T(k%100 + 1) }

// The iterators of the compressed matrices step through the gaps of a line, so that operations
// which enumerate are only practicable on contents whose lines are narrow.
const narrow = 1 << 18

// wide reports whether the content has a line with a gap too long to step through.
func wide[T constraints.Type](r, c int, m farMap[T]) bool {
	var zero T
	lo, hi := map[int]int{}, map[int]int{}
	for p, v := range m {
		if v == zero {
			continue
		}
		line, at := p.i, p.j
		if r > c {
			line, at = p.j, p.i
		}
		if h, ok := hi[line]; !ok || at > h {
			hi[line] = at
		}
		if l, ok := lo[line]; !ok || at < l {
			lo[line] = at
		}
	}
	for k := range hi {
		if hi[k]-lo[k] > narrow {
			return true
		}
	}
	return false
}

// farLines lists narrow contents: each pair of ranges for the two lines, all cells or every second one.
func farLines[T tnum](s farShape, sp []spot) []farMap[T] {
	out := []farMap[T]{{}}
	rangeOf := func(at int) int {
		switch {
		case at < 1<<17:
			return 0
		case at < 1<<31+1<<17:
			return 1
		case at < 1<<32+1<<17:
			return 2
		}
		return 3
	}
	for a := 0; a < 4; a++ {
		for b := 0; b < 4; b++ {
			for half := 0; half < 2; half++ {
				m := farMap[T]{}
				for k, p := range sp {
					line, at := p.i, p.j
					if s.r > s.c {
						line, at = p.j, p.i
					}
					if half == 1 && k%2 == (a+b)%2 || at > 1<<33 && at != farN-1 {
						continue
					}
					if line == 0 && rangeOf(at) == a || line == 1 && rangeOf(at) == b {
						m[p] = farValue[T](k)
					}
				}
				out = append(out, m)
			}
		}
	}
	return out
}

// farContents lists the contents: nothing, each cell, every second cell, all cells, the extremes.
func farContents[T tnum](s farShape, sp []spot) []farMap[T] {
	if s.far() && s.f != fSV {
		return farLines[T](s, sp)
	}
	out := []farMap[T]{{}}
	sel := func(f func(k int) bool) {
		m := farMap[T]{}
		for k, p := range sp {
			if f(k) {
				m[p] = farValue[T](k)
			}
		}
		out = append(out, m)
	}
	sel(func(int) bool { return true })
	sel(func(k int) bool { return k%2 == 0 })
	sel(func(k int) bool { return k%3 == 1 })
	sel(func(k int) bool { return k == 0 || k == len(sp)-1 })
	for q := range sp {
		if q%3 == 2 || q == len(sp)-1 {
			sel(func(k int) bool { return k == q })
		}
	}
	return out
}

func farMk[T tnum](s farShape, sp []spot, m farMap[T]) gb.Matrix[T] {
	x := empty[T](s.f, s.r, s.c)
	for k := len(sp) - 1; k >= 0; k -= 2 {
		if v, ok := m[sp[k]]; ok {
			x.Set(sp[k].i, sp[k].j, v)
		}
	}
	for k := len(sp) - 2; k >= 0; k -= 2 {
		if v, ok := m[sp[k]]; ok {
			x.Set(sp[k].i, sp[k].j, v)
		}
	}
	return x
}

// farExpect reads every spot and the enumeration.
func farExpect[T constraints.Type](x gb.MatrixLogical[T], r, c int, sp []spot, m farMap[T], what string) error {
	var zero T
	if isNil(x) {
		return rep.Errf("%s: nil", what)
	}
	if x.Rows() != r || x.Columns() != c || x.Size() != r*c {
		return rep.Errf("%s: shape %dx%d size %d, want %dx%d", what, x.Rows(), x.Columns(), x.Size(), r, c)
	}
	nz := 0
	for _, p := range sp {
		if v := x.At(p.i, p.j); !model.Same(v, m[p]) {
			return rep.Errf("%s: cell (%d,%d) = %v, want %v", what, p.i, p.j, v, m[p])
		}
		if m[p] != zero {
			nz++
		}
	}
	if _, vector := x.(gb.VectorLogial[T]); !vector && (r > longN || c > longN) && wide(r, c, m) {
		if x.Values() != nz {
			return rep.Errf("%s: Values() = %d, want %d", what, x.Values(), nz)
		}
		return nil
	}
	seen := map[spot]bool{}
	n, met := 0, 0
	for it := x.Enumerate(); it.HasNext(); {
		i, j, v := it.Next()
		if n++; n > nz && (r > longN || c > longN) || n > 3*longN {
			return rep.Errf("%s: enumeration does not end after %d elements", what, n)
		}
		p := spot{i, j}
		if !model.Same(v, m[p]) {
			return rep.Errf("%s: enumerates (%d,%d)=%v, want %v", what, i, j, v, m[p])
		}
		if v != zero {
			if seen[p] {
				return rep.Errf("%s: enumerates (%d,%d) twice", what, i, j)
			}
			seen[p] = true
			met++
		}
	}
	if met != nz {
		return rep.Errf("%s: enumerates %d nonzero elements, want %d", what, met, nz)
	}
	if x.Values() != n || n != nz && n != r*c {
		return rep.Errf("%s: Values() = %d, enumerated %d, %d nonzero", what, x.Values(), n, nz)
	}
	return nil
}

func (t tc[T]) farEach(r *rep.R, what string, keep func(s farShape) bool, f func(s farShape, sp []spot, ms []farMap[T]) error) {
	if !t.deep || t.name == "uint8" {
		return
	}
	r.Group("far indices", what+"; dimensions 2^40+3 (compressed formats) and 2^16+4465 (all formats), cells around the powers of two 2^7, 2^8, 2^15, 2^16, 2^31, 2^32")
	for _, s := range farShapes() {
		if keep != nil && !keep(s) || r.Sched && s.far() {
			continue
		}
		s := s
		r.Case(func() string { return fmt.Sprintf("far %s %v", t.name, s) }, func() error {
			sp := s.spots()
			ms := farContents[T](s, sp)
			if r.Sched {
				ms = ms[:min(4, len(ms))]
			}
			return f(s, sp, ms)
		})
	}
}

// farStore: every ordered pair of cells written, overwritten and removed; all cells in every order.
func (t tc[T]) farStore(r *rep.R, vec bool) {
	keep := func(s farShape) bool { return s.f.vector() == vec }
	t.farEach(r, "every ordered pair of cells: written, updated, removed, and all cells in every structured order, read back and enumerated", keep, func(s farShape, sp []spot, _ []farMap[T]) error {
		set := func(x gb.Matrix[T], p spot, v T) {
			if w, ok := x.(gb.Vector[T]); ok {
				w.SetVec(p.i, v)
			} else {
				x.Set(p.i, p.j, v)
			}
		}
		for a, p := range sp {
			for b, q := range sp {
				if !s.far() && (a+b)%3 != 0 {
					continue
				}
				x := empty[T](s.f, s.r, s.c)
				m := farMap[T]{p: 5}
				set(x, p, 5)
				m[q] = 7
				set(x, q, 7)
				r.Step(5)
				if err := farExpect[T](x, s.r, s.c, sp, m, fmt.Sprintf("%v after (%d,%d)=5 (%d,%d)=7", s, p.i, p.j, q.i, q.j)); err != nil {
					return err
				}
				var got T
				x.Update(p.i, p.j, func(v T) T { got = v; return 3 })
				if got != m[p] {
					return rep.Errf("%v: Update(%d,%d) was given %v, want %v", s, p.i, p.j, got, m[p])
				}
				m[p] = 3
				set(x, q, 0)
				m[q] = 0
				if err := farExpect[T](x, s.r, s.c, sp, m, fmt.Sprintf("%v after (%d,%d)=5 (%d,%d)=7 update, remove", s, p.i, p.j, q.i, q.j)); err != nil {
					return err
				}
				if w, ok := x.(gb.Vector[T]); ok {
					if v := w.AtVec(p.i); v != m[p] {
						return rep.Errf("%v: AtVec(%d) = %v, want %v", s, p.i, v, m[p])
					}
				}
			}
		}
		for _, name := range orderNames {
			x := empty[T](s.f, s.r, s.c)
			m := farMap[T]{}
			for _, k := range orders(len(sp))[name] {
				m[sp[k]] = farValue[T](k)
				set(x, sp[k], m[sp[k]])
				r.Step(1)
			}
			if err := farExpect[T](x, s.r, s.c, sp, m, fmt.Sprintf("%v all cells %s", s, name)); err != nil {
				return err
			}
			for k, q := range orders(len(sp))[name] {
				if k%2 == 0 {
					delete(m, sp[q])
					set(x, sp[q], 0)
				}
			}
			if err := farExpect[T](x, s.r, s.c, sp, m, fmt.Sprintf("%v all cells %s, half removed", s, name)); err != nil {
				return err
			}
			x.Clear()
			if err := farExpect[T](x, s.r, s.c, sp, farMap[T]{}, "cleared"); err != nil {
				return err
			}
		}
		return nil
	})
}

// farFull: more stored elements than 16 bits count.
func (t tc[T]) farFull(r *rep.R) {
	if t.name != "int8" {
		return
	}
	for _, s := range []farShape{{fCSR, 1, longN}, {fCSC, longN, 1}, {fCSR, 300, 300}, {fCSC, 300, 300}, {fSV, longN, 1}, {fDEN, 300, 300}, {fDV, longN, 1}} {
		s := s
		r.Case(func() string { return fmt.Sprintf("full %s %v", t.name, s) }, func() error {
			m := model.New[T](s.r, s.c)
			x := empty[T](s.f, s.r, s.c)
			// compressed formats append cheaply in their own order
			for k := range m.D {
				i, j := k/s.c, k%s.c
				if s.f == fCSC {
					i, j = k%s.r, k/s.r
				}
				m.Set(i, j, farValue[T](k))
				x.Set(i, j, farValue[T](k))
			}
			r.Step(int64(len(m.D)))
			if err := expect[T](x, m, "full object"); err != nil {
				return rep.Errf("%.300s", err.Error())
			}
			if err := enumerated[T](x, m, s.f.sparse()); err != nil {
				return rep.Errf("%.300s", err.Error())
			}
			x.Set(s.r-1, s.c-1, 0)
			m.Set(s.r-1, s.c-1, 0)
			if err := enumerated[T](x, m, s.f.sparse()); err != nil {
				return rep.Errf("%.300s", err.Error())
			}
			return nil
		})
	}
}

func (t tc[T]) farMapping(r *rep.R) {
	t.farEach(r, "in-place maps which replace, and which zero every second element", nil, func(s farShape, sp []spot, ms []farMap[T]) error {
		for q, m := range ms {
			for mode := 0; mode < 3; mode++ {
				x := farMk(s, sp, m)
				w := farMap[T]{}
				seen := map[spot]int{}
				k := 0
				f := func(p spot, v T) T {
					switch {
					case mode == 0:
						return v + v
					case mode == 1 && (p.i+p.j)%2 == 0, mode == 2:
						return 0
					}
					return v
				}
				for p, v := range m {
					w[p] = f(p, v)
				}
				for it := x.Map(); it.HasNext(); k++ {
					if k > len(m) && s.f.sparse() || k > longN {
						return rep.Errf("%v content %d: mapping does not end", s, q)
					}
					bad := ""
					it.Map(func(i, j int, v T) T {
						p := spot{i, j}
						seen[p]++
						if v != m[p] {
							bad = fmt.Sprintf("(%d,%d)=%v, want %v", i, j, v, m[p])
						}
						return f(p, v)
					})
					if bad != "" {
						return rep.Errf("%v content %d: maps %s", s, q, bad)
					}
				}
				for p := range m {
					if seen[p] != 1 {
						return rep.Errf("%v content %d mode %d: (%d,%d) mapped %d times", s, q, mode, p.i, p.j, seen[p])
					}
				}
				r.Step(1)
				if err := farExpect[T](x, s.r, s.c, sp, w, fmt.Sprintf("%v content %d mapped mode %d", s, q, mode)); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

func (t tc[T]) farExtract(r *rep.R) {
	t.farEach(r, "rows and columns", nil, func(s farShape, sp []spot, ms []farMap[T]) error {
		is, js := farIndexes(s.r, !s.f.sparse()), farIndexes(s.c, !s.f.sparse())
		for q, m := range ms {
			x := farMk(s, sp, m)
			for _, i := range is {
				r.Step(1)
				v := x.RowsAt(i)
				w := farMap[T]{}
				var vs []spot
				for _, j := range js {
					vs = append(vs, spot{j, 0})
					w[spot{j, 0}] = m[spot{i, j}]
				}
				if err := farExpect[T](v, s.c, 1, vs, w, fmt.Sprintf("%v content %d row %d", s, q, i)); err != nil {
					return err
				}
				if v.Length() != s.c {
					return rep.Errf("%v row %d has length %d", s, i, v.Length())
				}
				if s.c <= longN {
					a := x.RowsAtToArray(i)
					if len(a) != s.c {
						return rep.Errf("%v: RowsAtToArray(%d) has %d elements", s, i, len(a))
					}
					for j, v := range a {
						if v != m[spot{i, j}] {
							return rep.Errf("%v: RowsAtToArray(%d)[%d] = %v, want %v", s, i, j, v, m[spot{i, j}])
						}
					}
				}
			}
			for _, j := range js {
				r.Step(1)
				v := x.ColumnsAt(j)
				w := farMap[T]{}
				var vs []spot
				for _, i := range is {
					vs = append(vs, spot{i, 0})
					w[spot{i, 0}] = m[spot{i, j}]
				}
				if err := farExpect[T](v, s.r, 1, vs, w, fmt.Sprintf("%v content %d column %d", s, q, j)); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

func (t tc[T]) farCopy(r *rep.R) {
	t.farEach(r, "copies, then every cell written on either side", nil, func(s farShape, sp []spot, ms []farMap[T]) error {
		for q, m := range ms[:5] {
			for k, p := range sp {
				if !s.far() && k%4 != 1 {
					continue
				}
				x := farMk(s, sp, m)
				y := x.Copy()
				z := x.CopyLogical()
				if k%2 == 0 {
					x.Set(p.i, p.j, 99)
				} else {
					x.Clear()
				}
				r.Step(2)
				if err := farExpect[T](y, s.r, s.c, sp, m, fmt.Sprintf("%v copy of content %d after writing the original", s, q)); err != nil {
					return err
				}
				y.Set(p.i, p.j, 98)
				if err := farExpect[T](z, s.r, s.c, sp, m, fmt.Sprintf("%v logical copy of content %d after writing the others", s, q)); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

func (t tc[T]) farEqual(r *rep.R) {
	t.farEach(r, "every pair of contents, and every single difference", nil, func(s farShape, sp []spot, ms []farMap[T]) error {
		same := func(a, b farMap[T]) bool {
			for _, p := range sp {
				if a[p] != b[p] {
					return false
				}
			}
			return true
		}
		for a, ma := range ms {
			x := farMk(s, sp, ma)
			for b, mb := range ms {
				if !s.far() && (a+b)%4 != 0 && a != b {
					continue
				}
				r.Step(1)
				if err := eqCheck[T](x, farMk(s, sp, mb), same(ma, mb)); err != nil {
					return rep.Errf("%v contents %d %d: %v", s, a, b, err)
				}
			}
		}
		y := farMk(s, sp, ms[1])
		for _, p := range sp {
			if n := (farMap[T]{p: 1}); s.far() && s.f != fSV {
				for q, v := range ms[1] {
					n[q] = v
				}
				if wide(s.r, s.c, n) {
					continue
				}
			}
			for _, v := range []T{0, 99, 0} {
				y.Set(p.i, p.j, v)
				x := farMk(s, sp, ms[1])
				r.Step(1)
				if err := eqCheck[T](x, y, v == ms[1][p]); err != nil {
					return rep.Errf("%v: (%d,%d) %v against %v: %v", s, p.i, p.j, ms[1][p], v, err)
				}
			}
			y.Set(p.i, p.j, ms[1][p])
		}
		return nil
	})
}

func (t tc[T]) farReject(r *rep.R) {
	t.farEach(r, "indices beyond the shape which equal a valid one modulo a power of two", nil, func(s farShape, sp []spot, ms []farMap[T]) error {
		m := ms[1]
		x := farMk(s, sp, m)
		bad := func(n int) (out []int) {
			for _, v := range []int{-1, n, n + 1, n + 1<<8, n + 1<<16, n + 1<<32, 1<<32 + 1, 1 << 16, 1<<16 + 1, 1<<41 + 1, 1<<48 + 3, math.MaxInt, math.MinInt, -1 << 32, -1 << 16, 3 - 1<<32, 3 - 1<<16} {
				if v < 0 || v >= n {
					out = append(out, v)
				}
			}
			return
		}
		try := func(i, j int) error {
			for name, f := range map[string]func(){
				"At": func() { x.At(i, j) }, "Set": func() { x.Set(i, j, 9) }, "Set 0": func() { x.Set(i, j, 0) },
				"Update": func() { x.Update(i, j, func(v T) T { return v + 1 }) }, "Element": func() { x.Element(i, j) },
			} {
				r.Step(1)
				if !panics(f) {
					return rep.Errf("%v: %s(%d,%d) was not rejected", s, name, i, j)
				}
			}
			return nil
		}
		for _, i := range bad(s.r) {
			for _, j := range []int{0, s.c - 1} {
				if err := try(i, j); err != nil {
					return err
				}
			}
			if !panics(func() { x.RowsAt(i) }) || !panics(func() { x.RowsAtToArray(i) }) {
				return rep.Errf("%v: row %d was not rejected", s, i)
			}
			if v, ok := x.(gb.Vector[T]); ok && (!panics(func() { v.AtVec(i) }) || !panics(func() { v.SetVec(i, 4) })) {
				return rep.Errf("%v: element %d was not rejected", s, i)
			}
		}
		for _, j := range bad(s.c) {
			for _, i := range []int{0, s.r - 1} {
				if err := try(i, j); err != nil {
					return err
				}
			}
			if !panics(func() { x.ColumnsAt(j) }) {
				return rep.Errf("%v: column %d was not rejected", s, j)
			}
		}
		return farExpect[T](x, s.r, s.c, sp, m, "after the rejections")
	})
}

// farBinary: an operation on two operands and an output of the same shape.
func (t tc[T]) farBinary(r *rep.R, name string, do func(a, b, o gb.Matrix[T]), want func(x, y T) T) {
	t.farEach(r, name+": every pair of contents", nil, func(s farShape, sp []spot, ms []farMap[T]) error {
		for a, ma := range ms {
			for b, mb := range ms {
				if !s.far() && (a+b)%4 != 0 {
					continue
				}
				x, y, o := farMk(s, sp, ma), farMk(s, sp, mb), empty[T](s.f, s.r, s.c)
				do(x, y, o)
				w := farMap[T]{}
				for _, p := range sp {
					w[p] = want(ma[p], mb[p])
				}
				r.Step(1)
				what := fmt.Sprintf("%v %s of contents %d and %d", s, name, a, b)
				if err := first(func() error { return farExpect[T](o, s.r, s.c, sp, w, what) },
					func() error { return farExpect[T](x, s.r, s.c, sp, ma, what+": first operand") },
					func() error { return farExpect[T](y, s.r, s.c, sp, mb, what+": second operand") }); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

func (t tc[T]) farUnary(r *rep.R, name string, do func(a gb.Matrix[T], s farShape) gb.MatrixLogical[T], want func(v T) T) {
	t.farEach(r, name+": every content", nil, func(s farShape, sp []spot, ms []farMap[T]) error {
		for a, ma := range ms {
			x := farMk(s, sp, ma)
			o := do(x, s)
			w := farMap[T]{}
			for p, v := range ma {
				w[p] = want(v)
			}
			r.Step(1)
			if err := farExpect[T](o, s.r, s.c, sp, w, fmt.Sprintf("%v %s of content %d", s, name, a)); err != nil {
				return err
			}
			if o != gb.MatrixLogical[T](x) {
				if err := farExpect[T](x, s.r, s.c, sp, ma, fmt.Sprintf("%v operand of %s", s, name)); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

func (t tc[T]) farTranspose(r *rep.R) {
	t.farEach(r, "transposition and conversion of every content", nil, func(s farShape, sp []spot, ms []farMap[T]) error {
		var ts []spot
		for _, p := range sp {
			ts = append(ts, spot{p.j, p.i})
		}
		for a, m := range ms {
			x := farMk(s, sp, m)
			w := farMap[T]{}
			for p, v := range m {
				w[spot{p.j, p.i}] = v
			}
			var outs []gb.MatrixLogical[T]
			if s.r == farN || !s.far() {
				outs = append(outs, gb.TransposeToCSR[T](bg, x))
			}
			if s.c == farN || !s.far() {
				outs = append(outs, gb.TransposeToCSC[T](bg, x))
			}
			if !s.far() {
				d := gb.NewDenseMatrixN[T](s.c, s.r)
				gb.Transpose[T](bg, x, nil, d)
				outs = append(outs, d, x.Transpose())
			}
			for k, o := range outs {
				r.Step(1)
				if err := farExpect[T](o, s.c, s.r, ts, w, fmt.Sprintf("%v content %d transposed (%d)", s, a, k)); err != nil {
					return err
				}
			}
			if err := farExpect[T](x, s.r, s.c, sp, m, "operand"); err != nil {
				return err
			}
		}
		return nil
	})
}

func (t tc[T]) farMasks(r *rep.R) {
	plus := unaryop.NewUnaryOp(func(v T) T { return v + v })
	ops := []struct {
		name string
		do   func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T])
		want func(x, y T) T
	}{
		{"Add", func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.Add(bg, a, b, k, o) }, func(x, y T) T { return x + y }},
		{"Subtract", func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.Subtract(bg, a, b, k, o) }, func(x, y T) T { return x - y }},
		{"ElementWiseMatrixMultiply", func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.ElementWiseMatrixMultiply(bg, a, b, k, o) }, func(x, y T) T { return x * y }},
		{"Negative", func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.Negative(bg, a, k, o) }, func(x, y T) T { return -x }},
		{"Apply", func(a, b gb.Matrix[T], k gb.Mask, o gb.Matrix[T]) { gb.Apply[T](bg, a, k, plus, o) }, func(x, y T) T { return x + x }},
	}
	t.farEach(r, "every mask content against every second operand", nil, func(s farShape, sp []spot, ms []farMap[T]) error {
		for _, o := range ops {
			for km, mk := range ms {
				for b, mb := range ms {
					if !s.far() && (km+b)%5 != 0 {
						continue
					}
					x, y, k, out := farMk(s, sp, ms[1]), farMk(s, sp, mb), farMk(s, sp, mk), farMk(s, sp, ms[3])
					// start from an output holding elements only where the mask protects
					w := farMap[T]{}
					for _, p := range sp {
						if mk[p] != 0 {
							w[p] = ms[3][p]
						} else {
							out.Set(p.i, p.j, 0)
							w[p] = o.want(ms[1][p], mb[p])
						}
					}
					o.do(x, y, k, out)
					r.Step(1)
					if err := farExpect[T](out, s.r, s.c, sp, w, fmt.Sprintf("%v %s under mask %d", s, o.name, km)); err != nil {
						return err
					}
				}
			}
		}
		return nil
	})
}

func (t tc[T]) farReduce(r *rep.R) {
	t.farEach(r, "sums and products of every content, and of its columns", nil, func(s farShape, sp []spot, ms []farMap[T]) error {
		for a, m := range ms {
			x := farMk(s, sp, m)
			var sum, best T
			cols := make([]T, 0)
			for _, v := range m {
				sum += v
				best = max(best, v)
			}
			for j := 0; j < s.c && j < 3; j++ {
				var c T
				for p, v := range m {
					if p.j == j {
						c += v
					}
				}
				cols = append(cols, c)
			}
			r.Step(3)
			if g := gb.ReduceMatrixToScalar[T](bg, x, nil); g != sum {
				return rep.Errf("%v content %d: sum %v, want %v", s, a, g, sum)
			}
			if g := gb.ReduceMatrixToScalarWithMonoID[T](bg, x, gb.DefaultMonoIDMaximum[T](), nil); g != best {
				return rep.Errf("%v content %d: maximum %v, want %v", s, a, g, best)
			}
			if s.c <= 2 {
				v := gb.ReduceMatrixToVectorWithMonoID[T](bg, x, binaryop.NewMonoID[T](0, binaryop.Addition[T]()), nil)
				for j, c := range cols {
					if v.AtVec(j) != c {
						return rep.Errf("%v content %d: column %d sums to %v, want %v", s, a, j, v.AtVec(j), c)
					}
				}
			}
		}
		return nil
	})
}

// farProduct: a long inner dimension and a long outer one.
func (t tc[T]) farProduct(r *rep.R, vec bool) {
	if t.name != "float64" {
		return
	}
	r.Group("long products", "inner and outer dimension 2^16+4465, cells around the powers of two")
	col := farShape{fCSC, longN, 1}
	for _, fa := range matF {
		for _, fb := range fmts(1) {
			if vec && !fb.vector() {
				continue
			}
			fa, fb := fa, fb
			r.Case(func() string { return fmt.Sprintf("long product %s %v,%v", t.name, fa, fb) }, func() error {
				is := farIndexes(longN, true)
				var sp []spot
				for _, i := range is {
					sp = append(sp, spot{i, 0})
				}
				for q := range is {
					a, b := empty[T](fa, 2, longN), empty[T](fb, longN, 1)
					var want [2]T
					for k, i := range is {
						if k == q || q == 0 {
							a.Set(0, i, T(k+1))
							a.Set(1, i, T(2))
						}
						b.Set(i, 0, T(k+2))
						if k == q || q == 0 {
							want[0] += T(k+1) * T(k+2)
							want[1] += 2 * T(k+2)
						}
					}
					var o gb.Matrix[T]
					if vec {
						v := gb.NewDenseVectorN[T](2)
						gb.MatrixVectorMultiply[T](bg, a, b.(gb.Vector[T]), nil, v)
						o = v
					} else {
						o = gb.NewDenseMatrixN[T](2, 1)
						gb.MatrixMatrixMultiply[T](bg, a, b, nil, o)
					}
					r.Step(1)
					if o.At(0, 0) != want[0] || o.At(1, 0) != want[1] {
						return rep.Errf("inner product number %d: %v %v, want %v", q, o.At(0, 0), o.At(1, 0), want)
					}
				}
				// outer: a long column times a single element
				a := empty[T](fa, longN, 1)
				m := farMap[T]{}
				for k, p := range sp {
					a.Set(p.i, 0, T(k+1))
					m[p] = T(3 * (k + 1))
				}
				b := empty[T](fb, 1, 1)
				b.Set(0, 0, 3)
				var o gb.Matrix[T] = gb.NewDenseMatrixN[T](col.r, 1)
				if vec {
					o = gb.NewDenseVectorN[T](col.r)
					gb.VectorMatrixMultiply[T](bg, b.(gb.Vector[T]), a, nil, o.(gb.Vector[T]))
				} else {
					gb.MatrixMatrixMultiply[T](bg, a, b, nil, o)
				}
				r.Step(1)
				return farExpect[T](o, longN, 1, sp, m, "outer product")
			})
		}
	}
}

// farArrays: construction from long arrays.
func (t tc[T]) farArrays(r *rep.R) {
	if !t.deep {
		return
	}
	r.Group("long arrays", "arrays of 2^16+4465 elements with cells around the powers of two, every constructor")
	for _, f := range []fm{fCSR, fCSC, fDEN, fSV, fDV, fDENL, fDVL} {
		for _, tall := range []bool{true, false} {
			f, tall := f, tall
			if !tall && f.vector() {
				continue
			}
			r.Case(func() string { return fmt.Sprintf("long array %s %v tall %v", t.name, f, tall) }, func() error {
				s := farShape{f, longN, 1}
				if !tall {
					s = farShape{f, 1, longN}
				}
				m := model.New[T](s.r, s.c)
				w := farMap[T]{}
				sp := farShape{fDEN, s.r, s.c}.spots()
				for k, p := range sp {
					w[p] = farValue[T](k)
					m.Set(p.i, p.j, w[p])
				}
				x := mkL[T](f, m, 0)
				r.Step(1)
				if gb.IsSparseMatrix[T](x) != f.sparse() {
					return rep.Errf("%v classified wrongly", s)
				}
				return farExpect[T](x, s.r, s.c, sp, w, fmt.Sprintf("%v from an array", s))
			})
		}
	}
}

// far runs the far cases of the property.
func (t tc[T]) far(r *rep.R) {
	type M = gb.Matrix[T]
	logical := func(f func(a M, s farShape) M) func(a M, s farShape) gb.MatrixLogical[T] {
		return func(a M, s farShape) gb.MatrixLogical[T] { return f(a, s) }
	}
	into := func(f func(a, o M)) func(a M, s farShape) gb.MatrixLogical[T] {
		return func(a M, s farShape) gb.MatrixLogical[T] { o := empty[T](s.f, s.r, s.c); f(a, o); return o }
	}
	add := func(x, y T) T { return x + y }
	sub := func(x, y T) T { return x - y }
	mul := func(x, y T) T { return x * y }
	neg := func(v T) T { return -v }
	switch r.Prop {
	case "P01":
		t.farStore(r, false)
	case "P02":
		t.farStore(r, true)
	case "P03":
		t.farStore(r, false)
		t.farStore(r, true)
		t.farFull(r)
	case "P04":
		t.farMapping(r)
	case "P05":
		t.farExtract(r)
	case "P06":
		t.farCopy(r)
	case "P07":
		t.farEqual(r)
	case "P08":
		t.farReject(r)
	case "P09":
		t.farProduct(r, false)
	case "P10":
		t.farProduct(r, true)
	case "P11":
		t.farBinary(r, "Add", func(a, b, o M) { gb.Add(bg, a, b, nil, o) }, add)
		t.farBinary(r, "Subtract", func(a, b, o M) { gb.Subtract(bg, a, b, nil, o) }, sub)
	case "P12":
		t.farUnary(r, "Scalar", logical(func(a M, _ farShape) M { return gb.Scalar(bg, a, 3) }), func(v T) T { return v * 3 })
		t.farUnary(r, "Scalar method", logical(func(a M, _ farShape) M { return a.Scalar(0) }), func(v T) T { return 0 })
		t.farUnary(r, "Negative", into(func(a, o M) { gb.Negative(bg, a, nil, o) }), neg)
		t.farUnary(r, "Negative method", func(a M, _ farShape) gb.MatrixLogical[T] { return a.Negative() }, neg)
	case "P13":
		t.farTranspose(r)
	case "P14":
		t.farBinary(r, "ElementWiseMatrixMultiply", func(a, b, o M) { gb.ElementWiseMatrixMultiply(bg, a, b, nil, o) }, mul)
		t.farBinary(r, "ElementWiseMatrixAdd", func(a, b, o M) { gb.ElementWiseMatrixAdd(bg, a, b, nil, o) }, func(x, y T) T {
			if y != 0 {
				return y
			}
			return x
		})
	case "P15":
		sq := func(v T) T { return v*v + v }
		t.farUnary(r, "Apply", into(func(a, o M) { gb.Apply[T](bg, a, nil, unaryop.NewUnaryOp(sq), o) }), sq)
		t.farUnary(r, "Apply in place", func(a M, _ farShape) gb.MatrixLogical[T] {
			gb.Apply[T](bg, a, nil, unaryop.NewUnaryOp(sq), a)
			return a
		}, sq)
	case "P16":
		t.farMasks(r)
	case "P17":
		t.farReduce(r)
	case "P18":
		t.farArrays(r)
	}
}
