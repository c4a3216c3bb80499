package main

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/symmetric"
	"github.com/rossmerr/graphblas/operators"
	gbsort "github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
	"verif.local/mc/model"
	"verif.local/mc/rep"
)

// ---- P25: reduced row echelon form -----------------------------------------

// rref computes the reduced row echelon form in rationals and whether every intermediate
// value of Gauss-Jordan elimination with the first usable pivot is a normal floating-point
// number with the given mantissa (52 or 23 bits).
func rref(m Mat[float64], bits int) (Mat[float64], bool) {
	R, C := m.R, m.C
	a := make([][]*big.Rat, R)
	exact := true
	lim := 1000
	if bits < 50 {
		lim = 120
	}
	chk := func(q *big.Rat) {
		if q.Sign() == 0 {
			return
		}
		d, n := q.Denom(), q.Num()
		// power of two denominator, short odd part and an exponent well inside the range
		if new(big.Int).And(d, new(big.Int).Sub(d, big.NewInt(1))).Sign() != 0 || n.BitLen()-int(n.TrailingZeroBits()) > bits {
			exact = false
		}
		if e := n.BitLen() - d.BitLen(); e > lim || e < -lim {
			exact = false
		}
	}
	for i := range a {
		a[i] = make([]*big.Rat, C)
		for j := range a[i] {
			a[i][j] = new(big.Rat).SetFloat64(m.At(i, j))
		}
	}
	lead := 0
	for r := 0; r < R && lead < C; lead++ {
		p := -1
		for i := r; i < R; i++ {
			if a[i][lead].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		a[p], a[r] = a[r], a[p]
		inv := new(big.Rat).Inv(a[r][lead])
		chk(inv)
		for j := range a[r] {
			a[r][j] = new(big.Rat).Mul(a[r][j], inv)
			chk(a[r][j])
		}
		for i := 0; i < R; i++ {
			if i == r {
				continue
			}
			f := a[i][lead]
			for j := range a[i] {
				t := new(big.Rat).Mul(a[r][j], f)
				chk(t)
				a[i][j] = new(big.Rat).Sub(a[i][j], t)
				chk(a[i][j])
			}
		}
		r++
	}
	o := model.New[float64](R, C)
	for i := range a {
		for j := range a[i] {
			f, _ := a[i][j].Float64()
			o.Set(i, j, f)
		}
	}
	return o, exact
}

func p25T[T float32 | float64](r *rep.R, tn string, bits int, deep bool) {
	alphas := map[string][]float64{"binary": {0, 1}, "signed": {0, 1, -1}, "dyadic": {0, 1, -2, 0.5}, "wide": {0, 1, 2, -1, 4}, "tiny": {0, 1, math.Ldexp(1, 7-bits)}}
	// values whose squares and products leave the range of the type
	big := 600
	if bits < 50 {
		big = 80
	}
	alphas["small"] = []float64{0, math.Ldexp(1, -big), -math.Ldexp(1, -big)}
	alphas["large"] = []float64{0, math.Ldexp(1, big), -math.Ldexp(1, big+1)}
	alphas["mixed"] = []float64{0, 1, math.Ldexp(1, -big), math.Ldexp(1, big)}
	type sp struct {
		r, c  int
		alpha string
	}
	specs := []sp{{1, 1, "wide"}, {1, 3, "wide"}, {3, 1, "wide"}, {2, 2, "wide"}, {2, 3, "dyadic"}, {3, 2, "dyadic"}, {3, 3, "signed"}, {2, 4, "signed"}, {4, 2, "signed"}, {3, 4, "binary"}, {4, 3, "binary"}}
	if !deep {
		specs = specs[:7]
		specs[6].alpha = "binary"
	}
	specs = append(specs, sp{2, 2, "tiny"}, sp{2, 3, "tiny"}, sp{3, 2, "tiny"}, sp{2, 2, "mixed"}, sp{2, 3, "small"}, sp{3, 2, "small"}, sp{2, 3, "large"}, sp{3, 2, "large"}, sp{1, 3, "mixed"}, sp{3, 1, "mixed"})
	if deep {
		specs = append(specs, sp{2, 3, "mixed"}, sp{3, 3, "small"}, sp{3, 3, "large"})
	}
	if r.Thorough && deep {
		specs = append(specs, sp{2, 3, "wide"}, sp{3, 2, "wide"}, sp{3, 3, "dyadic"}, sp{4, 4, "binary"}, sp{2, 5, "signed"})
	}
	conv := func(m Mat[float64]) Mat[T] {
		o := model.New[T](m.R, m.C)
		for i := range m.D {
			o.D[i] = T(m.D[i])
		}
		return o
	}
	var on func(a gb.Matrix[T], m Mat[float64], f fm) error
	run := func(m Mat[float64], fs []fm, route int) error {
		for _, f := range fs {
			if err := on(mk(f, conv(m), route), m, f); err != nil {
				return err
			}
		}
		return nil
	}
	on = func(a gb.Matrix[T], m Mat[float64], f fm) error {
		want, ok := rref(m, bits)
		if !ok {
			return nil
		}
		{
			src := conv(m)
			got := reduced.Reduced[T](a)
			r.Step(1)
			if isNil(got) || got.Rows() != m.R || got.Columns() != m.C {
				return rep.Errf("reduced form of %v %v is missing or misshapen", f, m)
			}
			for i := range want.D {
				g := float64(got.At(i/m.C, i%m.C))
				if !(math.Abs(g-want.D[i]) <= 1e-9*max(1, math.Abs(want.D[i]))) {
					return rep.Errf("reduced form of %v %v is %v, want %v", f, m, read[T](got), want)
				}
			}
			if err := spoil[T](got); err != nil {
				return err
			}
			if err := expect[T](a, src, "input, after writing to the result,"); err != nil {
				return err
			}
		}
		return nil
	}
	again(r, "the reduction", matF, [][2]int{{1, 2}, {2, 2}, {2, 3}, {3, 2}}, []T{0, 1, 2}, func(x gb.MatrixLogical[T], m Mat[T], f fm) error {
		w := model.New[float64](m.R, m.C)
		for i := range m.D {
			w.D[i] = float64(m.D[i])
		}
		return on(x.(gb.Matrix[T]), w, f)
	})
	r.Group("contents", "every content over alphabets of dyadic values whose elimination is exactly representable, every format; rational oracle")
	for _, s := range specs {
		al := alphas[s.alpha]
		n := model.Pow(len(al), s.r*s.c)
		block := 64
		for b := 0; b < n; b += block {
			s, b := s, b
			r.Case(func() string { return fmt.Sprintf("rref %s %dx%d %s contents %d..", tn, s.r, s.c, s.alpha, b) }, func() error {
				for code := b; code < b+block && code < n; code++ {
					r.State(1)
					if err := run(model.Decode(s.r, s.c, al, code), fmts(s.c), code%routes); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	r.Group("structured", "unit triangular, permutation, rank-deficient and repeated-row matrices to 9x12, and to 65x68 (thorough 130x133)")
	ns := []int{4, 5, 6, 9, 17, 33, 65}
	if r.Thorough && deep {
		ns = append(ns, 64, 70, 130)
	}
	for _, n := range ns {
		for k := 0; k < 8; k++ {
			for extra := -2; extra <= 3; extra++ {
				if n > 9 && extra%2 == 0 || n > 33 && (k == 1 || !deep && k > 2) {
					continue
				}
				n, k, extra := n, k, extra
				r.Case(func() string { return fmt.Sprintf("rrefs %s n=%d kind %d extra %d", tn, n, k, extra) }, func() error {
					m := model.New[float64](n, n+extra)
					for i := 0; i < n; i++ {
						for j := 0; j < n+extra; j++ {
							var v float64
							switch k {
							case 0: // upper unit triangular
								if i <= j {
									v = float64(1 + (i+j)%2*b2i(i != j))
								}
							case 1: // lower unit triangular
								if i == j {
									v = 1
								} else if i > j {
									v = float64((i+j)%3) - 1
								}
							case 2: // reversal permutation
								if i+j == n-1 {
									v = 2
								}
							case 3: // cyclic shift
								if j == (i+1)%n {
									v = 4
								}
							case 4: // repeated rows
								v = float64((i / 2) * b2i(j >= i/2))
								if j == i/2 {
									v = 1
								}
							case 5: // zero leading columns
								if j >= 2 && i >= 1 && j-2 >= i-1 {
									v = 1
								}
							case 6: // rank one
								v = float64(int(1)<<(i%3)) * float64(1-j%2*2)
							case 7: // last row only
								if i == n-1 && j >= 1 {
									v = 2
								}
							}
							m.Set(i, j, v)
						}
					}
					return run(m, fmts(m.C), 1)
				})
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func p25(r *rep.R) {
	p25T[float64](r, "float64", 52, true)
	p25T[float32](r, "float32", 23, false)
}

// ---- P26: symmetry ---------------------------------------------------------

func (t tc[T]) P26(r *rep.R) {
	t.between(r, "symmetry")
	t.apart(r, "symmetry")
	run := func(m Mat[T], f fm, route int) error {
		sym, skew := m.R == m.C, m.R == m.C
		for i := 0; i < m.R && m.R == m.C; i++ {
			for j := 0; j < m.C; j++ {
				if m.At(i, j) != m.At(j, i) {
					sym = false
				}
				if m.At(i, j) != -m.At(j, i) {
					skew = false
				}
			}
		}
		x := mk(f, m, route)
		r.Step(2)
		if g := symmetric.Symmetric(x); g != sym {
			return rep.Errf("symmetric(%v %v) = %v", f, m, g)
		}
		if g := skewsymmetric.SkewSymmetric(x); g != skew {
			return rep.Errf("skew-symmetric(%v %v) = %v", f, m, g)
		}
		return expect[T](x, m, "source")
	}
	// own negation beyond zero: the most negative value
	low := T(1)
	for i := 0; ; i++ {
		if n := low * 2; n != 0 && i < 200 && !t.float() {
			low = n
		} else {
			break
		}
	}
	r.Group("contents", "every content of every shape up to 3x3 (alphabets with a value, its negation and the value that is its own negation)")
	type sp struct {
		r, c  int
		alpha []T
	}
	specs := []sp{{1, 1, []T{0, 1, t.neg1(), low}}, {2, 2, []T{0, 1, t.neg1(), low}}, {1, 2, []T{0, 1}}, {2, 1, []T{0, 1}}, {2, 3, []T{0, 1}}, {3, 2, []T{0, 1}}, {1, 3, []T{0, 1}}, {3, 1, []T{0, 1}}, {0, 0, []T{0}}, {0, 2, []T{0}}, {2, 0, []T{0}}}
	specs = append(specs, sp{2, 2, append(t.close(), 0-t.close()[1], t.tiny())})
	if t.deep {
		specs = append(specs, sp{3, 3, []T{0, 1, t.neg1()}})
	}
	if r.Thorough {
		specs = append(specs, sp{3, 3, []T{0, 2, low}})
	}
	for _, s := range specs {
		for _, f := range fmts(s.c) {
			for code := 0; code < model.Pow(len(s.alpha), s.r*s.c); code++ {
				s, f, code := s, f, code
				r.Case(func() string {
					return fmt.Sprintf("sym %s %v %dx%d content %d of %v", t.name, f, s.r, s.c, code, s.alpha)
				}, func() error {
					return run(model.Decode(s.r, s.c, s.alpha, code), f, code%routes)
				})
			}
		}
	}
	if t.name == "float64" || t.name == "int8" {
		r.Group("four vertices", "every directed graph on four vertices, loops included; every 4x4 matrix over 0, 1 and -1 with a zero diagonal")
		for code := 0; code < 1<<16; code += 64 {
			code := code
			r.Case(func() string { return fmt.Sprintf("sym4 %s %d", t.name, code) }, func() error {
				for k := code; k < code+64; k++ {
					if err := run(model.Decode(4, 4, []T{0, 1}, k), matF[k%len(matF)], k%routes); err != nil {
						return err
					}
				}
				return nil
			})
		}
		for code := 0; code < 531441; code += 243 {
			code := code
			r.Case(func() string { return fmt.Sprintf("sym4- %s %d", t.name, code) }, func() error {
				for k := code; k < code+243; k++ {
					m, d := model.New[T](4, 4), k
					for i := range m.D {
						if i%5 != 0 {
							m.D[i] = []T{0, 1, t.neg1()}[d%3]
							d /= 3
						}
					}
					if err := run(m, matF[k%len(matF)], 0); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	r.Group("one difference", "(skew-)symmetric matrices of sizes 4..17 (thorough 65) changed in one cell, every cell, and along cycles of three vertices; of sizes 33, 65, 70 and 130, the cells beside the diagonals and where blocks of 8 to 64 meet")
	sz := []int{4, 5}
	if t.deep {
		sz = []int{4, 5, 9, 17}
		if r.Thorough {
			sz = append(sz, 32, 33, 64)
		}
		sz = append(sz, -33, -65, -70)
		if t.name == "float64" {
			sz = append(sz, -130)
		}
	}
	for _, n := range sz {
		for _, f := range matF {
			for kind := 0; kind < 4; kind++ {
				every := n > 0
				n, f, kind := max(n, -n), f, kind
				corner := func(i, j int) bool {
					return every || i == j && i%3 == 0 || i-j == 1 && i%4 == 0 || blockEdge(i, n) && blockEdge(j, n)
				}
				r.Case(func() string { return fmt.Sprintf("sym1 %s %v n=%d kind %d", t.name, f, n, kind) }, func() error {
					m := model.New[T](n, n)
					for i := 0; i < n; i++ {
						for j := 0; j <= i; j++ {
							v := T((i*3 + j*5) % 4)
							if kind >= 2 && (i+j)%3 != 0 || n > 33 && (i*7+j)%(8+8*kind) != 0 && i-j > 1 {
								v = 0
							}
							m.Set(i, j, v)
							m.Set(j, i, v)
							if kind%2 == 1 {
								m.Set(j, i, -v)
								if i == j {
									m.Set(i, i, 0)
								}
							}
						}
					}
					if err := run(m, f, 1); err != nil {
						return err
					}
					for i := range m.D {
						if !corner(i/n, i%n) {
							continue
						}
						o := m.D[i]
						vs := []T{0, o + 1, -o}
						if !every {
							vs = vs[b2i(o == 0):][:1]
						}
						for _, v := range vs {
							m.D[i] = v
							if err := run(m, f, 1); err != nil {
								return err
							}
						}
						m.D[i] = o
					}
					// differences that keep the sums of rows against columns, or all the sums, or the values
					for _, c := range [][3]int{{0, 1, 2}, {0, n / 2, n - 1}, {n - 1, n - 2, 1}, {n - 3, n - 1, n - 2}} {
						for d := 0; d < 4; d++ {
							o := append([]T{}, m.D...)
							for e := 0; e < 3; e++ {
								i, j := c[e], c[(e+1)%3]
								if i == j {
									continue
								}
								switch d {
								case 0:
									m.D[i*n+j]++
								case 1:
									m.D[i*n+j]++
									m.D[j*n+i]--
								case 2:
									m.D[i*n+j] += 2
									m.D[j*n+i] += 2
									m.D[i*n+i] -= 2
									m.D[j*n+j] -= 2
								case 3:
									k := c[(e+2)%3]
									m.D[i*n+j], m.D[i*n+k] = m.D[i*n+k], m.D[i*n+j]
								}
							}
							if err := run(m, f, 1); err != nil {
								return err
							}
							copy(m.D, o)
						}
					}
					return nil
				})
			}
		}
	}
}

// ---- P27: breadth-first search ---------------------------------------------

func bfsCheck[T tnum](r *rep.R, a Mat[T], f fm, route, src int) error {
	return bfsOn(r, mk(f, a, route), a, f, src)
}

// bfsOn searches the graph held by x.
func bfsOn[T tnum](r *rep.R, x gb.Matrix[T], a Mat[T], f fm, src int, hook ...func()) error {
	n := a.R
	dist := make([]int, n)
	for i := range dist {
		dist[i] = -1
	}
	dist[src] = 0
	q := []int{src}
	ecc := 0
	for len(q) > 0 {
		j := q[0]
		q = q[1:]
		for i := 0; i < n; i++ {
			if a.At(i, j) != 0 && dist[i] < 0 {
				dist[i] = dist[j] + 1
				ecc = dist[i]
				q = append(q, i)
			}
		}
	}
	for stop := 0; stop <= n; stop++ { // 0: never
		if n > 33 && stop > 2 && stop != ecc/2 && stop != ecc && stop != ecc+1 {
			continue
		}
		step := 0
		var bad error
		var last []bool
		r.Step(1)
		got := breadthfirst.Search(bg, x, src, func(v gb.Vector[T]) bool {
			step++
			for _, h := range hook {
				h()
			}
			if bad != nil {
				return true
			}
			if step > n {
				bad = rep.Errf("step %d of a graph with %d vertices", step, n)
				return true
			}
			if v.Length() != n {
				bad = rep.Errf("callback vector has length %d", v.Length())
				return true
			}
			last = make([]bool, n)
			for i := 0; i < n; i++ {
				last[i] = v.AtVec(i) != 0
				if last[i] != (dist[i] == step) {
					bad = rep.Errf("step %d: vertex %d marked %v, its distance is %d", step, i, last[i], dist[i])
					return true
				}
			}
			return step == stop
		})
		if bad != nil {
			return rep.Errf("%v %v from %d: %v", f, a, src, bad)
		}
		if isNil(got) || got.Length() != n {
			return rep.Errf("%v %v from %d: no result", f, a, src)
		}
		if stop > 0 && step > stop {
			return rep.Errf("%v %v from %d: continued after acceptance at step %d", f, a, src, stop)
		}
		accepted := stop > 0 && step == stop
		if !accepted && step < ecc {
			return rep.Errf("%v %v from %d: stopped after %d steps, level %d not reported", f, a, src, step, ecc)
		}
		for i := 0; i < n; i++ {
			g := got.AtVec(i) != 0
			if accepted && g != last[i] {
				return rep.Errf("%v %v from %d accepted at %d: result differs from that step's vector at %d", f, a, src, stop, i)
			}
			if !accepted && g {
				return rep.Errf("%v %v from %d: no step accepted, result nonzero at %d", f, a, src, i)
			}
		}
		if err := spoil[T](got); err != nil {
			return rep.Errf("%v %v from %d: %v", f, a, src, err)
		}
	}
	return expect[T](x, a, "adjacency matrix")
}

func p27T[T tnum](r *rep.R, tn string, weights []T, nmax int, fs []fm) {
	r.Group("digraphs", "every digraph (self-loops included) with up to 3 vertices, every source, every acceptance step, every format; 4 vertices for two types")
	for n := 1; n <= nmax; n++ {
		if n == 4 {
			for b := 0; b < 1<<16; b += 256 {
				b := b
				r.Case(func() string { return fmt.Sprintf("bfs %s 4 vertices graphs %d..", tn, b) }, func() error {
					for code := b; code < b+256; code++ {
						r.State(1)
						m := model.Decode(4, 4, weights[:2], code)
						f := fs[code%len(fs)]
						for s := 0; s < 4; s++ {
							if err := bfsCheck(r, m, f, 1, s); err != nil {
								return err
							}
						}
					}
					return nil
				})
			}
			continue
		}
		w := weights
		if n == 3 {
			w = weights[:2]
		}
		for _, f := range fs {
			if n == 3 && len(weights) > 2 && (tn == "float64" || r.Thorough) {
				w = weights[:3]
			}
			for code := 0; code < model.Pow(len(w), n*n); code++ {
				n, f, code, w := n, f, code, w
				r.Case(func() string { return fmt.Sprintf("bfs %s %v n=%d graph %d over %v", tn, f, n, code, w) }, func() error {
					r.State(1)
					for s := 0; s < n; s++ {
						if err := bfsCheck(r, model.Decode(n, n, w, code), f, code%routes, s); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	r.Group("structured", "paths, cycles, stars, binary trees, grids, two components, complete graphs, to 130 vertices (other types than float64 9), both edge directions")
	sz := []int{5, 8, 9}
	if tn == "float64" {
		sz = []int{5, 8, 9, 16, 17, 32, 33, 65, 70, 130}
		if r.Thorough {
			sz = append(sz, 64, 127, 257)
		}
		if r.Sched {
			sz = []int{5, 9, 17, 33, 65}
		}
	}
	for _, n := range sz {
		for k := 0; k < 9; k++ {
			for _, f := range fs {
				n, k, f := n, k, f
				r.Case(func() string { return fmt.Sprintf("bfss %s %v n=%d kind %d", tn, f, n, k) }, func() error {
					for dir := 0; dir < 2; dir++ {
						m := model.New[T](n, n)
						edge := func(i, j int) {
							if dir == 0 {
								m.Set(j, i, weights[1])
							} else {
								m.Set(i, j, weights[1])
							}
						}
						for i := 0; i < n; i++ {
							switch k {
							case 0:
								if i+1 < n {
									edge(i, i+1)
								}
							case 1:
								edge(i, (i+1)%n)
							case 2:
								if i > 0 {
									edge(0, i)
								}
							case 3:
								if i > 0 {
									edge((i-1)/2, i)
								}
							case 4:
								if i%3 != 2 && i+1 < n {
									edge(i, i+1)
									edge(i+1, i)
								}
								if i+3 < n {
									edge(i, i+3)
								}
							case 5:
								if i+2 < n {
									edge(i, i+2)
									edge(i+2, i)
								}
							case 6:
								if n <= 5 {
									for j := 0; j < n; j++ {
										edge(i, j)
									}
								} else {
									edge(i, i)
									edge(i, (i+2)%n)
								}
							case 7:
								edge(i, (i*5+1)%n)
							case 8:
								if i+1 < n {
									edge(n-1-i, n-2-i)
								}
							}
						}
						srcs := []int{0, 1, n / 2, n - 1}
						if n > 33 {
							srcs = []int{0, n - 2}
						}
						for _, s := range srcs {
							if err := bfsCheck(r, m, f, 1, s); err != nil {
								return err
							}
						}
					}
					return nil
				})
			}
		}
	}
}

// p27Levels: every assignment of the vertices other than the source to consecutive levels, or to none.
func p27Levels[T tnum](r *rep.R, tn string, w T, nmax int, fs []fm) {
	r.Group("levels", "5 and 6 (thorough 7) vertices, every assignment of them to consecutive levels or none, with all or as few edges forward as possible, with no or all edges backward and within levels; the source the first and the last vertex")
	for n := 5; n <= nmax; n++ {
		for b := 0; b < model.Pow(n, n-1); b += 1 << 10 {
			n, b := n, b
			r.Case(func() string { return fmt.Sprintf("bfsl %s %d vertices levels %d..", tn, n, b) }, func() error {
				level := make([]int, n)
				for code := b; code < min(b+1<<10, model.Pow(n, n-1)); code++ {
					d, used, high := code, 0, 0
					for i := 1; i < n; i++ {
						level[i] = d % n // n-1 levels, and 0: not reached
						d /= n
						if l := level[i]; l > 0 {
							used |= 1 << (l - 1)
							high = max(high, l)
						}
					}
					if used != 1<<high-1 {
						continue
					}
					r.State(1)
					for kind := 0; kind < 8; kind++ {
						m := model.New[T](n, n)
						at := func(i int) int { return i }
						if kind >= 4 {
							at = func(i int) int { return n - 1 - i }
						}
						parent := map[int]int{0: 0}
						for i := 1; i < n; i++ {
							if _, ok := parent[level[i]]; !ok {
								parent[level[i]] = i
							}
						}
						for i := 0; i < n; i++ {
							for j := 0; j < n; j++ {
								li, lj := level[i], level[j]
								reached, into := i == 0 || li > 0, j == 0 || lj > 0
								edge := false
								switch {
								case !reached, lj <= li && into:
									edge = kind&1 != 0
								case into && lj == li+1:
									edge = kind&2 != 0 || parent[li] == i || i == 0
								}
								if edge {
									m.Set(at(j), at(i), w)
								}
							}
						}
						if err := bfsCheck(r, m, fs[(code+kind)%len(fs)], 1, at(0)); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
}

func p27(r *rep.R) {
	if r.Thorough {
		p27Levels(r, "float64", 1.0, 7, matF)
	} else {
		p27Levels(r, "float64", 1.0, 6, matF)
	}
	p27Levels(r, "uint8", uint8(1), 5, matF)
	again(r, "a search from every vertex", matF, [][2]int{{1, 1}, {2, 2}, {3, 3}}, []float64{0, 1}, func(x gb.MatrixLogical[float64], m Mat[float64], f fm) error {
		for s := 0; s < m.R; s++ {
			if err := bfsOn(r, x.(gb.Matrix[float64]), m, f, s); err != nil {
				return err
			}
		}
		return nil
	})
	tc[float64]{"float64", true}.nestedSearch(r)
	tc[int8]{"int8", false}.nestedSearch(r)
	p27T(r, "float64", []float64{0, 1, 0.25, 1.0 / (1 << 40)}, 4, matF)
	p27T(r, "int", []int{0, 1, 3}, 3, matF)
	n8 := 3
	if r.Thorough {
		n8 = 4
	}
	p27T(r, "uint8", []uint8{0, 1, 2}, n8, matF)
	p27T(r, "int8", []int8{0, 1, 2}, 3, matF)
	p27T(r, "float32", []float32{0, 1, 0.5, 1.0 / (1 << 20)}, 3, matF)
	p27T(r, "uint64", []uint64{0, 1, 2}, 2, matF)
}

// ---- P28: rune order -------------------------------------------------------

func lexCmp(a, b Mat[rune]) int {
	for i := range a.D {
		if a.D[i] != b.D[i] {
			if a.D[i] < b.D[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func p28(r *rep.R) {
	type rn interface {
		Compare(gb.VectorRune) int
	}
	alphas := map[string][]rune{
		"letters":   {'a', 'b', 0},
		"multibyte": {'z', 'é', '世', 0x1F600},
		"edges":     {0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0xFFFD, 1, 0},
		"digits":    {'0', '1', '9', 'A'},
	}
	names := []string{"letters", "multibyte", "edges", "digits"}
	var on func(x, y gb.MatrixLogical[rune], ma, mb Mat[rune], fa, fb fm) error
	check := func(ma, mb Mat[rune], fa, fb fm) error {
		return on(mkL[rune](fa, ma, 1), mkL[rune](fb, mb, 1), ma, mb, fa, fb)
	}
	on = func(x, y gb.MatrixLogical[rune], ma, mb Mat[rune], fa, fb fm) error {
		want := lexCmp(ma, mb)
		r.Step(4)
		if g := gb.Compare(bg, x, y); g != want {
			return rep.Errf("Compare(%v %q, %v %q) = %d, want %d", fa, ma.D, fb, mb.D, g, want)
		}
		if g := gb.Compare(bg, y, x); g != -want {
			return rep.Errf("Compare(%v %q, %v %q) = %d, want %d", fb, mb.D, fa, ma.D, g, -want)
		}
		if g := gb.Less(bg, x, y); g != (want < 0) {
			return rep.Errf("Less(%v %q, %v %q) = %v", fa, ma.D, fb, mb.D, g)
		}
		if g := gb.Greater(bg, x, y); g != (want > 0) {
			return rep.Errf("Greater(%v %q, %v %q) = %v", fa, ma.D, fb, mb.D, g)
		}
		if g := gb.String(bg, x); g != string(ma.D) {
			return rep.Errf("String(%v %dx%d %q) = %q", fa, ma.R, ma.C, ma.D, g)
		}
		return nil
	}
	r.Group("pairs", "every pair of contents over four alphabets (zero, multi-byte, encoding boundaries), every shape and format pair")
	type sp struct {
		r, c  int
		alpha string
	}
	specs := []sp{{1, 1, "edges"}, {2, 1, "letters"}, {1, 2, "letters"}, {2, 2, "letters"}, {2, 1, "multibyte"}, {1, 2, "multibyte"}, {2, 1, "edges"}, {1, 2, "edges"}}
	if r.Thorough {
		specs = append(specs, sp{2, 2, "multibyte"}, sp{2, 3, "ab"}, sp{3, 1, "letters"}, sp{1, 4, "letters"}, sp{3, 1, "multibyte"})
	}
	alphas["ab"] = []rune{0, 'b'}
	_ = names
	for _, s := range specs {
		al := alphas[s.alpha]
		n := model.Pow(len(al), s.r*s.c)
		for _, fa := range fmtsL(s.c) {
			for _, fb := range fmtsL(s.c) {
				if fb < fa {
					continue
				}
				for a := 0; a < n; a++ {
					s, fa, fb, a := s, fa, fb, a
					r.Case(func() string { return fmt.Sprintf("rune %v,%v %dx%d %s %d", fa, fb, s.r, s.c, s.alpha, a) }, func() error {
						for b := 0; b < n; b++ {
							if err := check(model.Decode(s.r, s.c, al, a), model.Decode(s.r, s.c, al, b), fa, fb); err != nil {
								return err
							}
						}
						return nil
					})
				}
			}
		}
	}
	again(r, "the comparisons with matrices of three contents, as the first and the second operand", fmtsL(1), [][2]int{{1, 2}, {2, 1}, {2, 2}, {3, 1}}, []rune{0, 'a', 'é'}, func(x gb.MatrixLogical[rune], m Mat[rune], f fm) error {
		if g := gb.String(bg, x); g != string(m.D) {
			return rep.Errf("String(%v %dx%d %q) = %q", f, m.R, m.C, m.D, g)
		}
		for code := range 3 {
			o := model.New[rune](m.R, m.C)
			for i := range o.D {
				o.D[i] = []rune{0, 'a', 'é'}[(code+i*code)%3]
			}
			fo := []fm{fDENL, fDENL, f}[code]
			if err := on(x, mkL[rune](fo, o, 1), m, o, f, fo); err != nil {
				return err
			}
		}
		return nil
	})
	r.Group("one difference", "larger rune matrices equal up to one cell")
	for _, s := range [][2]int{{3, 3}, {5, 4}, {9, 1}, {1, 17}, {33, 2}} {
		for _, fa := range fmtsL(s[1]) {
			for _, fb := range fmtsL(s[1]) {
				s, fa, fb := s, fa, fb
				r.Case(func() string { return fmt.Sprintf("rune1 %v,%v %v", fa, fb, s) }, func() error {
					m := model.New[rune](s[0], s[1])
					for i := range m.D {
						m.D[i] = []rune{'a', 0, 'é', '世'}[(i*i+i/3)%4]
					}
					if err := check(m, m, fa, fb); err != nil {
						return err
					}
					for i := range m.D {
						for _, v := range []rune{0, 'b', 0x10000} {
							o := m.Clone()
							o.D[i] = v
							if err := check(m, o, fa, fb); err != nil {
								return err
							}
						}
					}
					return nil
				})
			}
		}
	}
}

// ---- P29: sorting ----------------------------------------------------------

func p29(r *rep.R) {
	var on func(x gb.MatrixLogical[rune], m Mat[rune], f fm, byCol bool) error
	check := func(m Mat[rune], f fm, byCol bool) error {
		return on(mkL[rune](f, m, 1), m, f, byCol)
	}
	on = func(x gb.MatrixLogical[rune], m Mat[rune], f fm, byCol bool) error {
		var g gb.MatrixRune
		w := m
		r.Step(1)
		if byCol {
			g = gbsort.BubbleColumns(bg, x)
			w = model.Transpose(m)
		} else {
			g = gbsort.BubbleRow(bg, x)
		}
		rows := w.Rows()
		sort.SliceStable(rows, func(i, j int) bool { return strings.Compare(string(rows[i]), string(rows[j])) < 0 })
		want := model.New[rune](w.R, w.C)
		for i := range rows {
			copy(want.D[i*w.C:], rows[i])
		}
		if byCol {
			want = model.Transpose(want)
		}
		if isNil(g) {
			return rep.Errf("nil result")
		}
		if err := expect[rune](g, want, fmt.Sprintf("sort %v %dx%d %q by column %v", f, m.R, m.C, m.D, byCol)); err != nil {
			return err
		}
		if err := spoil[rune](g); err != nil {
			return err
		}
		return expect(x, m, "input, after writing to the result,")
	}
	r.Group("contents", "every content of shapes up to 4x3, every format, rows and columns")
	type sp struct {
		r, c  int
		alpha []rune
	}
	abc, ab := []rune{0, 'a', 'é'}, []rune{0, 'b'}
	specs := []sp{{1, 1, abc}, {1, 3, abc}, {3, 1, abc}, {2, 2, abc}, {3, 2, abc}, {2, 3, abc}, {5, 1, abc}, {4, 2, ab}, {2, 4, ab}, {3, 3, ab}, {6, 1, ab}, {1, 6, ab}}
	if r.Thorough {
		specs = append(specs, sp{4, 2, abc}, sp{3, 3, abc}, sp{4, 3, ab}, sp{3, 4, ab}, sp{6, 1, abc}, sp{1, 6, abc}, sp{6, 2, ab})
	}
	for _, s := range specs {
		for _, f := range fmtsL(s.c) {
			n := model.Pow(len(s.alpha), s.r*s.c)
			for b := 0; b < n; b += 16 {
				s, f, b := s, f, b
				r.Case(func() string { return fmt.Sprintf("sort %v %dx%d %q contents %d..", f, s.r, s.c, s.alpha, b) }, func() error {
					for code := b; code < b+16 && code < n; code++ {
						r.State(1)
						m := model.Decode(s.r, s.c, s.alpha, code)
						if err := first(func() error { return check(m, f, false) }, func() error { return check(m, f, true) }); err != nil {
							return err
						}
					}
					return nil
				})
			}
		}
	}
	again(r, "the sorts by rows and by columns", matFL, [][2]int{{1, 2}, {2, 1}, {2, 2}, {3, 2}}, []rune{0, 'a', 'é'}, func(x gb.MatrixLogical[rune], m Mat[rune], f fm) error {
		return first(func() error { return on(x, m, f, false) }, func() error { return on(x, m, f, true) })
	})
	sortLetters(r, check)
	r.Group("permutations", "every permutation of n distinct rows (columns), n to 6, and long structured ones")
	top := 5
	if r.Thorough {
		top = 6
	}
	for _, f := range matFL {
		for _, p := range perms(top) {
			f, p := f, p
			r.Case(func() string { return fmt.Sprintf("sortp %v %v", f, p) }, func() error {
				m := model.New[rune](top, 2)
				for i, k := range p {
					m.Set(i, 0, []rune{0, 'a', 'a', '世', 0x10000, 'b'}[k])
					m.Set(i, 1, []rune{0, 0, 'c', 'd', 0, 'x'}[k])
				}
				return first(func() error { return check(m, f, false) }, func() error { return check(model.Transpose(m), f, true) })
			})
		}
		for _, n := range []int{9, 17, 33, 65} {
			for _, on := range orderNames {
				f, n, on := f, n, on
				r.Case(func() string { return fmt.Sprintf("sortl %v %d %s", f, n, on) }, func() error {
					m := model.New[rune](n, 3)
					for i, k := range orders(n)[on] {
						m.Set(i, 0, rune(k/4)) // duplicates and zeros
						m.Set(i, 2, rune('a'+k%3))
					}
					return first(func() error { return check(m, f, false) }, func() error { return check(model.Transpose(m), f, true) })
				})
			}
		}
	}
}

// sortLetters sorts lines which differ in single letters, for every ordered pair of letters and
// line lengths around the sizes at which a comparison may take a shortcut.
func sortLetters(r *rep.R, check func(Mat[rune], fm, bool) error) {
	letters := []rune{0, 1, 'a', 'b', 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x141, 0x161, 0x7ff, 0x800, 0x4e16, 0x10000, 0x10ffff}
	r.Group("letters", "three lines of 1 to 65 letters differing in a letter, every pair of 16 letters of 1 to 4 bytes, first, middle and last position, common letters of 1 to 3 bytes")
	lens := []int{1, 2, 9, 17, 33}
	if r.Thorough {
		lens = append(lens, 5, 8, 16, 32, 64, 65)
	}
	for _, n := range lens {
		for _, f := range matFL {
			for _, fill := range []rune{'m', 0, 0x4e16} {
				for _, at := range []int{0, n / 2, n - 1} {
					if n == 1 && at > 0 {
						continue
					}
					n, f, fill, at := n, f, fill, at
					r.Case(func() string { return fmt.Sprintf("letters %v %d of %q at %d", f, n, fill, at) }, func() error {
						for i, x := range letters {
							for j, y := range letters {
								m := model.New[rune](3, n)
								for k := range m.D {
									m.D[k] = fill
								}
								m.Set(0, at, x)
								m.Set(1, at, y)
								m.Set(2, at, letters[(i+j)%len(letters)])
								m.Set(1, n-1, letters[(i*j+1)%len(letters)])
								if err := check(m, f, false); err != nil {
									return err
								}
								if (i+j)%4 == 0 {
									if err := check(model.Transpose(m), f, true); err != nil {
										return err
									}
								}
							}
						}
						return nil
					})
				}
			}
		}
	}
}

// ---- P30: operators --------------------------------------------------------

func (t tc[T]) P30(r *rep.R) {
	var z T
	full := fmt.Sprintf("%T", z) == "int8" || fmt.Sprintf("%T", z) == "uint8"
	var dom []T
	if full {
		v := T(0)
		for i := 0; i < 256; i++ {
			dom = append(dom, v)
			v++
		}
	} else {
		dom = []T{0, 1, 2, 3, 5, 7, 10, 64, 100, 127}
		p := T(1)
		for i := 0; i < 64; i++ {
			p *= 2
			if p == 0 {
				break
			}
			dom = append(dom, p, p-1, p+1)
		}
		for _, v := range append([]T(nil), dom...) {
			dom = append(dom, -v)
			if t.float() {
				dom = append(dom, v/3, -v/7)
			}
		}
		if t.float() {
			inf := T(1)
			for i := 0; i < 2000; i++ {
				inf *= 2
			}
			dom = append(dom, inf, -inf, 1/inf)
		}
		seen := map[T]bool{}
		var u []T
		for _, v := range dom {
			if !seen[v] {
				seen[v] = true
				u = append(u, v)
			}
		}
		dom = u
	}
	bin := []struct {
		name string
		ops  []binaryop.BinaryOp[T]
		want func(x, y T) T
		skip func(x, y T) bool
	}{
		{"Addition", []binaryop.BinaryOp[T]{binaryop.Addition[T](), operators.Addition[T]()}, func(x, y T) T { return x + y }, nil},
		{"Subtraction", []binaryop.BinaryOp[T]{binaryop.Subtraction[T](), operators.Subtraction[T]()}, func(x, y T) T { return x - y }, nil},
		{"Multiplication", []binaryop.BinaryOp[T]{binaryop.Multiplication[T](), operators.Multiplication[T]()}, func(x, y T) T { return x * y }, nil},
		{"Division", []binaryop.BinaryOp[T]{binaryop.Division[T](), operators.Division[T]()}, func(x, y T) T { return x / y }, func(x, y T) bool { return y == 0 && !t.float() }},
		{"FirstArgument", []binaryop.BinaryOp[T]{binaryop.FirstArgument[T](), operators.FirstArgument[T]()}, func(x, y T) T { return x }, nil},
		{"SecondArgument", []binaryop.BinaryOp[T]{binaryop.SecondArgument[T](), operators.SecondArgument[T]()}, func(x, y T) T { return y }, nil},
		{"Minimum", []binaryop.BinaryOp[T]{binaryop.Minimum[T](), operators.Minimum[T]()}, func(x, y T) T { return min(x, y) }, nil},
		{"Maximum", []binaryop.BinaryOp[T]{binaryop.Maximum[T](), operators.Maximum[T]()}, func(x, y T) T { return max(x, y) }, nil},
	}
	r.Group("binary", "every pair of arguments (8-bit types: the whole domain; others: powers of two, their neighbours, negations, thirds, infinities), both packages")
	if r.Shard == 0 {
		r.State(int64(len(dom) * len(dom)))
	}
	block := (len(dom) + 15) / 16
	for _, b := range bin {
		for lo := 0; lo < len(dom); lo += block {
			b, lo := b, lo
			r.Case(func() string { return fmt.Sprintf("%s %s arguments %d..", b.name, t.name, lo) }, func() error {
				for _, x := range dom[lo:min(lo+block, len(dom))] {
					for _, y := range dom {
						if b.skip != nil && b.skip(x, y) {
							continue
						}
						w := b.want(x, y)
						for i, o := range b.ops {
							r.Step(1)
							if g := o.Apply(x, y); !model.Same(g, w) {
								return rep.Errf("%s[%s](%v, %v) = %v, want %v (package %d)", b.name, t.name, x, y, g, w, i)
							}
						}
					}
				}
				return nil
			})
		}
	}
	cmp := []struct {
		name string
		op   binaryop.BinaryOpToBool[T]
		want func(x, y T) bool
	}{
		{"Equal", operators.Equal[T](), func(x, y T) bool { return x == y }},
		{"NotEqual", operators.NotEqual[T](), func(x, y T) bool { return x != y }},
		{"GreaterThan", operators.GreaterThan[T](), func(x, y T) bool { return x > y }},
		{"LessThan", operators.LessThan[T](), func(x, y T) bool { return x < y }},
		{"GreaterThanOrEqual", operators.GreaterThanOrEqual[T](), func(x, y T) bool { return x >= y }},
		{"LessThanOrEqual", operators.LessThanOrEqual[T](), func(x, y T) bool { return x <= y }},
	}
	r.Group("comparisons", "as binary")
	for _, c := range cmp {
		c := c
		r.Case(func() string { return fmt.Sprintf("%s %s", c.name, t.name) }, func() error {
			for _, x := range dom {
				for _, y := range dom {
					r.Step(1)
					if g := c.op.Apply(x, y); g != c.want(x, y) {
						return rep.Errf("%s[%s](%v, %v) = %v", c.name, t.name, x, y, g)
					}
				}
			}
			return nil
		})
	}
	r.Group("monoids and unary", "identity and fold of a monoid built from each operator; default monoids; unary operators apply exactly the function they were built from")
	for _, b := range bin {
		b := b
		if b.skip != nil {
			continue
		}
		r.Case(func() string { return fmt.Sprintf("monoid %s %s", b.name, t.name) }, func() error {
			for _, u := range []T{0, 1, t.neg1(), t.big()} {
				for i, o := range b.ops {
					m := binaryop.NewMonoID(u, o)
					if m.Zero() != u {
						return rep.Errf("monoid identity %v, want %v", m.Zero(), u)
					}
					for _, vs := range [][]T{{}, {2}, {3, t.neg1()}, {5, 2, 7}} {
						r.Step(1)
						w := u
						for _, v := range vs {
							w = b.want(w, v)
						}
						if g := stream(m, vs); !model.Same(g, w) {
							return rep.Errf("monoid of %s[%s] (package %d) from %v over %v = %v, want %v", b.name, t.name, i, u, vs, g, w)
						}
					}
				}
			}
			return nil
		})
	}
	r.Case(func() string { return "defaults " + t.name }, func() error {
		a, m := gb.DefaultMonoIDAddition[T](), gb.DefaultMonoIDMaximum[T]()
		if a.Zero() != 0 || m.Zero() != 0 {
			return rep.Errf("default identities %v %v", a.Zero(), m.Zero())
		}
		for _, x := range dom {
			for _, y := range []T{0, 1, t.neg1(), 5} {
				r.Step(2)
				if g := stream(a, []T{x, y}); !model.Same(g, x+y) {
					return rep.Errf("default addition of %v %v = %v", x, y, g)
				}
				if g := stream(m, []T{x, y}); g != max(0, x, y) {
					return rep.Errf("default maximum of %v %v = %v", x, y, g)
				}
			}
		}
		return nil
	})
	r.Case(func() string { return "unary " + t.name }, func() error {
		for _, f := range []func(T) T{func(v T) T { return v }, func(v T) T { return -v }, func(v T) T { return v*v + 1 }, func(v T) T { return 0 }} {
			u := unaryop.NewUnaryOp(f)
			for _, x := range dom {
				r.Step(1)
				n := 0
				u2 := unaryop.NewUnaryOp(func(v T) T { n++; return f(v) })
				if g := u.Apply(x); !model.Same(g, f(x)) {
					return rep.Errf("unary(%v) = %v, want %v", x, g, f(x))
				}
				if u2.Apply(x); n != 1 {
					return rep.Errf("unary operator called its function %d times", n)
				}
			}
		}
		return nil
	})
	r.Case(func() string { return "zero and default " + t.name }, func() error {
		if gb.Zero[T]() != 0 || gb.Default[T]() != 0 {
			return rep.Errf("zero value")
		}
		for _, x := range dom {
			r.Step(1)
			if gb.IsZero(x) != (x == 0) {
				return rep.Errf("IsZero(%v)", x)
			}
		}
		return nil
	})
}

// stream runs a monoid over values with the plain protocol.
func stream[T constraints.None](m binaryop.MonoID[T], vs []T) T {
	done, in := make(chan struct{}), make(chan T)
	out := m.Reduce(done, in)
	for _, v := range vs {
		in <- v
	}
	done <- struct{}{}
	return <-out
}

func p30bool(r *rep.R) {
	r.Group("logical", "the whole truth tables; monoids over every stream of up to 4 truth values")
	fs := []struct {
		name string
		op   binaryop.BinaryOp[bool]
		want func(a, b bool) bool
	}{{"LOR", operators.LOR, func(a, b bool) bool { return a || b }}, {"LAND", operators.LAND, func(a, b bool) bool { return a && b }}, {"LXOR", operators.LXOR, func(a, b bool) bool { return a != b }}}
	for _, f := range fs {
		f := f
		r.Case(func() string { return f.name }, func() error {
			for c := 0; c < 4; c++ {
				a, b := c&1 == 1, c&2 == 2
				r.Step(1)
				if f.op.Apply(a, b) != f.want(a, b) {
					return rep.Errf("%s(%v,%v) = %v", f.name, a, b, f.op.Apply(a, b))
				}
			}
			for _, u := range []bool{false, true} {
				m := binaryop.NewMonoID(u, f.op)
				if m.Zero() != u {
					return rep.Errf("identity")
				}
				for n := 0; n <= 4; n++ {
					for c := 0; c < 1<<n; c++ {
						w := u
						var vs []bool
						for i := 0; i < n; i++ {
							vs = append(vs, c>>i&1 == 1)
							w = f.want(w, vs[i])
						}
						r.Step(1)
						if g := stream(m, vs); g != w {
							return rep.Errf("%s monoid from %v over %v = %v", f.name, u, vs, g)
						}
					}
				}
			}
			return nil
		})
	}
	r.Case(func() string { return "LogicalInverse" }, func() error {
		r.Step(2)
		if operators.LogicalInverse.Apply(true) || !operators.LogicalInverse.Apply(false) {
			return rep.Errf("LogicalInverse")
		}
		return nil
	})
	r.Case(func() string { return "context modes" }, func() error {
		r.Step(3)
		for _, m := range []gb.Mode{gb.Blocking, gb.NonBlocking} {
			c, cancel := context.WithCancel(context.Background())
			defer cancel()
			g := gb.NewContext(c, m)
			if got, ok := gb.BlockingMode(g); !ok || got != m {
				return rep.Errf("mode of a context built with %v is %v, %v", m, got, ok)
			}
			cancel()
			if g.Err() == nil {
				return rep.Errf("a context with a mode does not follow its parent")
			}
		}
		if got, ok := gb.BlockingMode(context.Background()); ok || got != gb.Blocking {
			return rep.Errf("mode of a plain context")
		}
		return nil
	})
}

// ---- P31: programs ---------------------------------------------------------

type progState[T tnum] struct {
	x [2]gb.Matrix[T]
	m [2]Mat[T]
}

type progOp[T tnum] struct {
	name string
	do   func(s *progState[T]) error
}

func (t tc[T]) P31(r *rep.R) {
	type S = progState[T]
	type O = progOp[T]
	zip := func(a, b Mat[T], f func(x, y T) T) Mat[T] { return model.Zip(a, b, f) }
	add := func(x, y T) T { return x + y }
	sub := func(x, y T) T { return x - y }
	mul := func(x, y T) T { return x * y }
	as := func(l gb.MatrixLogical[T]) gb.Matrix[T] {
		if n, ok := l.(gb.Matrix[T]); ok {
			return n
		}
		// dense results of Transpose have no arithmetic: move them over
		o := gb.NewDenseMatrixN[T](l.Rows(), l.Columns())
		for it := l.Enumerate(); it.HasNext(); {
			i, j, v := it.Next()
			o.Set(i, j, v)
		}
		return o
	}
	ops := func(n int) []O {
		o := []O{
			{"A=A.Add(B)", func(s *S) error { s.x[0] = s.x[0].Add(s.x[1]); s.m[0] = zip(s.m[0], s.m[1], add); return nil }},
			{"A=B.Subtract(A)", func(s *S) error { s.x[0] = s.x[1].Subtract(s.x[0]); s.m[0] = zip(s.m[1], s.m[0], sub); return nil }},
			{"A=A.Subtract(B)", func(s *S) error { s.x[0] = s.x[0].Subtract(s.x[1]); s.m[0] = zip(s.m[0], s.m[1], sub); return nil }},
			{"A=A.Multiply(B)", func(s *S) error { s.x[0] = s.x[0].Multiply(s.x[1]); s.m[0] = model.Mul(s.m[0], s.m[1]); return nil }},
			{"A=A.Transpose()", func(s *S) error { s.x[0] = as(s.x[0].Transpose()); s.m[0] = model.Transpose(s.m[0]); return nil }},
			{"A=TransposeToCSC(A)", func(s *S) error { s.x[0] = gb.TransposeToCSC(bg, s.x[0]); s.m[0] = model.Transpose(s.m[0]); return nil }},
			{"B=TransposeToCSR(A)", func(s *S) error { s.x[1] = gb.TransposeToCSR(bg, s.x[0]); s.m[1] = model.Transpose(s.m[0]); return nil }},
			{"A=A.Scalar(2)", func(s *S) error {
				s.x[0] = s.x[0].Scalar(2)
				s.m[0] = model.Map(s.m[0], func(v T) T { return v * 2 })
				return nil
			}},
			{"A=A.Scalar(half)", func(s *S) error {
				s.x[0] = s.x[0].Scalar(t.half())
				s.m[0] = model.Map(s.m[0], func(v T) T { return v * t.half() })
				return nil
			}},
			{"A=A.Scalar(0)", func(s *S) error { s.x[0] = s.x[0].Scalar(0); s.m[0] = model.New[T](n, n); return nil }},
			{"A=A.Negative()", func(s *S) error {
				s.x[0] = as(s.x[0].Negative())
				s.m[0] = model.Map(s.m[0], func(v T) T { return -v })
				return nil
			}},
			{"B=A.Copy()", func(s *S) error { s.x[1] = s.x[0].Copy(); s.m[1] = s.m[0].Clone(); return nil }},
			{"swap", func(s *S) error { s.x[0], s.x[1] = s.x[1], s.x[0]; s.m[0], s.m[1] = s.m[1], s.m[0]; return nil }},
			{"A.Set(0,1,5)", func(s *S) error { s.x[0].Set(0, n-1, 5); s.m[0].Set(0, n-1, 5); return nil }},
			{"A.Set(1,0,0)", func(s *S) error { s.x[0].Set(n-1, 0, 0); s.m[0].Set(n-1, 0, 0); return nil }},
			{"A.Update(0,0,+1)", func(s *S) error {
				s.x[0].Update(0, 0, func(v T) T { return v + 1 })
				s.m[0].Set(0, 0, s.m[0].At(0, 0)+1)
				return nil
			}},
			{"A.Clear()", func(s *S) error { s.x[0].Clear(); s.m[0] = model.New[T](n, n); return nil }},
			{"A=A.*B into A", func(s *S) error {
				gb.ElementWiseMatrixMultiply(bg, s.x[0], s.x[1], nil, s.x[0])
				s.m[0] = zip(s.m[0], s.m[1], mul)
				return nil
			}},
			{"A=A|B into A", func(s *S) error {
				gb.ElementWiseMatrixAdd(bg, s.x[0], s.x[1], nil, s.x[0])
				if err := eAddOK(s.x[0], s.m[0], s.m[1], false, "element-wise add"); err != nil {
					return err
				}
				s.m[0] = read[T](s.x[0])
				return nil
			}},
			{"Apply(x->x*x-x) in place", func(s *S) error {
				f := func(v T) T { return v*v - v }
				gb.Apply[T](bg, s.x[0], nil, unaryop.NewUnaryOp(f), s.x[0])
				s.m[0] = model.Map(s.m[0], f)
				return nil
			}},
			{"Map(zero the diagonal)", func(s *S) error {
				k := 0
				for it := s.x[0].Map(); it.HasNext(); k++ {
					if k > n*n {
						return rep.Errf("mapping does not end")
					}
					it.Map(func(i, j int, v T) T {
						if i == j {
							return 0
						}
						return v
					})
				}
				for i := 0; i < n; i++ {
					s.m[0].Set(i, i, 0)
				}
				return nil
			}},
			{"rows of A to diagonal of B", func(s *S) error {
				b := model.New[T](n, n)
				x := gb.NewCSRMatrix[T](n, n)
				for i := 0; i < n; i++ {
					row, col := s.x[0].RowsAt(i), s.x[0].ColumnsAt(i)
					for j := 0; j < n; j++ {
						x.Set(i, j, row.AtVec(j)+col.AtVec(j))
						b.Set(i, j, s.m[0].At(i, j)+s.m[0].At(j, i))
					}
				}
				s.x[1], s.m[1] = x, b
				return nil
			}},
		}
		for _, f := range matF {
			f := f
			o = append(o, O{fmt.Sprintf("A=Add(A,B) into %v", f), func(s *S) error {
				x := empty[T](f, n, n)
				gb.Add(bg, s.x[0], s.x[1], nil, x)
				s.x[0], s.m[0] = x, zip(s.m[0], s.m[1], add)
				return nil
			}}, O{fmt.Sprintf("A=Multiply(A,B) into %v", f), func(s *S) error {
				x := empty[T](f, n, n)
				gb.MatrixMatrixMultiply(bg, s.x[0], s.x[1], nil, x)
				s.x[0], s.m[0] = x, model.Mul(s.m[0], s.m[1])
				return nil
			}})
		}
		return o
	}
	depth := 2
	if t.deep {
		depth = 3
		if r.Thorough {
			depth = 4
		}
	}
	type size struct{ n, depth int }
	sizes := []size{{2, depth}, {5, 2}}
	if t.deep {
		sizes = append(sizes, size{1, 2}, size{9, 2})
		if r.Thorough {
			sizes = append(sizes, size{3, 3}, size{17, 2})
		}
	}
	for _, z := range sizes {
		t.programs(r, z.n, z.depth, ops(z.n))
	}
}

func (t tc[T]) programs(r *rep.R, n, depth int, os []progOp[T]) {
	type S = progState[T]
	r.Group("programs", "every program of the depth over two registers of 1x1 to 17x17, 28 operations, every pair of initial formats and two initial contents, values, counts and enumeration compared after every operation")
	for _, fa := range matF {
		for _, fb := range matF {
			for init := 0; init < 2; init++ {
				for i := range os {
					for j := range os {
						if depth == 2 && j > 0 {
							break
						}
						fa, fb, init, i, j := fa, fb, init, i, j
						r.Case(func() string {
							return fmt.Sprintf("program %s n=%d %v,%v init %d %s; %s; depth %d", t.name, n, fa, fb, init, os[i].name, os[j].name, depth)
						}, func() error {
							seq := []int{i}
							if depth > 2 {
								seq = []int{i, j}
							}
							var walk func() error
							walk = func() error {
								var s S
								s.m = [2]Mat[T]{family(n, n, 1, T(1), T(2)), family(n, n, 3, t.neg1(), T(2))}
								if init == 1 {
									s.m = [2]Mat[T]{family(n, n, 5, T(1), T(2)), family(n, n, 2, t.neg1(), T(2))}
								}
								s.x = [2]gb.Matrix[T]{mk(fa, s.m[0], 1), mk(fb, s.m[1], 3)}
								desc := func() string {
									var d []string
									for _, k := range seq {
										d = append(d, os[k].name)
									}
									return strings.Join(d, "; ")
								}
								for q, k := range seq {
									if err := os[k].do(&s); err != nil {
										return rep.Errf("[%s]: %v", desc(), err)
									}
									if q == len(seq)-1 {
										for v := range s.x {
											r.Step(1)
											if err := expect[T](s.x[v], s.m[v], fmt.Sprintf("[%s] register %c", desc(), 'A'+v)); err != nil {
												return err
											}
											if err := enumerated[T](s.x[v], s.m[v], gb.IsSparseMatrix[T](s.x[v])); err != nil {
												return rep.Errf("[%s] register %c: %v", desc(), 'A'+v, err)
											}
										}
										if s.x[0].Equal(s.x[1]) != s.m[0].Equal(s.m[1]) {
											return rep.Errf("[%s]: A.Equal(B) wrong for %v and %v", desc(), s.m[0], s.m[1])
										}
									}
								}
								if len(seq) >= depth {
									return nil
								}
								for k := range os {
									seq = append(seq, k)
									if err := walk(); err != nil {
										return err
									}
									seq = seq[:len(seq)-1]
								}
								return nil
							}
							return walk()
						})
					}
				}
			}
		}
	}
}
