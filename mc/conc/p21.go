package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	gbsort "github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"

	"verif.local/mc/rep"
	"verif.local/mc/vsched"
)

var bg = context.Background()

// dump is the shape and content of a matrix.
func dump(m gb.MatrixLogical[float64]) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%dx%d", m.Rows(), m.Columns())
	for i := 0; i < m.Rows(); i++ {
		for j := 0; j < m.Columns(); j++ {
			fmt.Fprintf(&b, " %v", m.At(i, j))
		}
	}
	return b.String()
}

// enumerated is what an enumeration yields, in order of position.
func enumerated(e gb.Enumerate[float64]) string {
	var out []string
	for n := 0; e.HasNext() && n < 40; n++ {
		r, c, v := e.Next()
		out = append(out, fmt.Sprintf("%d,%d=%v", r, c, v))
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

// operand is what the operations of P21 work on: x is shared by the readers, y only read too.
type operand struct {
	f format
	x gb.Matrix[float64]
	y gb.Matrix[float64]
}

type namedOp struct {
	name string
	ok   func(f format) bool
	run  func(o operand) string
}

func anyFormat(format) bool    { return true }
func square(f format) bool     { return f.r == f.c }
func vectorLike(f format) bool { return f.c == 1 }

// readers are operations that only read x and y.
func readers() []namedOp {
	out := func(o operand) gb.Matrix[float64] { return o.f.empty() }
	ops := []namedOp{
		{"At", anyFormat, func(o operand) string { return o.f.read(o.x) }},
		{"Element", anyFormat, func(o operand) string {
			var s []bool
			for i := 0; i < o.f.r*o.f.c; i++ {
				s = append(s, o.x.Element(i/o.f.c, i%o.f.c))
			}
			return fmt.Sprint(s)
		}},
		{"Rows/Columns/Size/Values", anyFormat, func(o operand) string { return fmt.Sprint(o.x.Rows(), o.x.Columns(), o.x.Size(), o.x.Values()) }},
		{"RowsAt", anyFormat, func(o operand) string {
			s := ""
			for i := 0; i < o.f.r; i++ {
				v := o.x.RowsAt(i)
				for j := 0; j < v.Length(); j++ {
					s += fmt.Sprint(v.AtVec(j), " ")
				}
			}
			return s
		}},
		{"RowsAtToArray", anyFormat, func(o operand) string { return fmt.Sprint(o.x.RowsAtToArray(0), o.x.RowsAtToArray(o.f.r-1)) }},
		{"ColumnsAt", anyFormat, func(o operand) string {
			s := ""
			for i := 0; i < o.f.c; i++ {
				v := o.x.ColumnsAt(i)
				for j := 0; j < v.Length(); j++ {
					s += fmt.Sprint(v.AtVec(j), " ")
				}
			}
			return s
		}},
		{"Copy then write the copy", anyFormat, func(o operand) string {
			c := o.x.Copy()
			s := dump(c)
			c.Set(0, 0, 9)
			c.Update(o.f.r-1, o.f.c-1, func(v float64) float64 { return v + 1 })
			return s + dump(c)
		}},
		{"CopyLogical then clear the copy", anyFormat, func(o operand) string {
			c := o.x.CopyLogical()
			s := dump(c)
			c.Clear()
			return s + dump(c)
		}},
		{"RowsAt then write it", anyFormat, func(o operand) string {
			v := o.x.RowsAt(0)
			v.SetVec(0, 11)
			return fmt.Sprint(v.AtVec(0))
		}},
		{"ColumnsAt then write it", anyFormat, func(o operand) string {
			v := o.x.ColumnsAt(0)
			v.SetVec(0, 12)
			return fmt.Sprint(v.AtVec(0))
		}},
		{"RowsAtToArray then write it", anyFormat, func(o operand) string {
			a := o.x.RowsAtToArray(0)
			a[0] = 13
			return fmt.Sprint(a)
		}},
		{"Enumerate", anyFormat, func(o operand) string { return enumerated(o.x.Enumerate()) }},
		{"Transpose method", anyFormat, func(o operand) string { t := o.x.Transpose(); s := dump(t); t.Clear(); return s }},
		{"Equal", anyFormat, func(o operand) string {
			return fmt.Sprint(o.x.Equal(o.x), o.x.Equal(o.y), o.y.Equal(o.x), o.x.NotEqual(o.y), gb.Equal[float64](bg, o.x, o.y), gb.NotEqual[float64](bg, o.y, o.x))
		}},
		{"Scalar", anyFormat, func(o operand) string { return dump(o.x.Scalar(3)) + dump(gb.Scalar[float64](bg, o.x, -2)) }},
		{"Add method", anyFormat, func(o operand) string { return dump(o.x.Add(o.y)) + dump(o.y.Add(o.x)) }},
		{"Subtract method", anyFormat, func(o operand) string { return dump(o.x.Subtract(o.y)) + dump(o.y.Subtract(o.x)) }},
		{"Negative method", anyFormat, func(o operand) string { return dump(o.x.Negative()) }},
		{"Multiply method", square, func(o operand) string { return dump(o.x.Multiply(o.y)) + dump(o.y.Multiply(o.x)) }},
		{"IsSparseMatrix", anyFormat, func(o operand) string { return fmt.Sprint(gb.IsSparseMatrix[float64](o.x)) }},
		{"MatrixMatrixMultiply", square, func(o operand) string {
			m := out(o)
			gb.MatrixMatrixMultiply[float64](bg, o.x, o.y, nil, m)
			return dump(m)
		}},
		{"MatrixMatrixMultiply, masked by x", square, func(o operand) string {
			m := out(o)
			gb.MatrixMatrixMultiply[float64](bg, o.y, o.y, o.x, m)
			return dump(m)
		}},
		{"Add", anyFormat, func(o operand) string { m := out(o); gb.Add[float64](bg, o.x, o.y, nil, m); return dump(m) }},
		{"Add, masked by x", anyFormat, func(o operand) string { m := out(o); gb.Add[float64](bg, o.y, o.y, o.x, m); return dump(m) }},
		{"Subtract", anyFormat, func(o operand) string { m := out(o); gb.Subtract[float64](bg, o.x, o.y, o.x, m); return dump(m) }},
		{"Negative", anyFormat, func(o operand) string { m := out(o); gb.Negative[float64](bg, o.x, nil, m); return dump(m) }},
		{"Apply", anyFormat, func(o operand) string {
			m := out(o)
			gb.Apply[float64](bg, o.x, o.x, unaryop.NewUnaryOp(func(v float64) float64 { return v + 2 }), m)
			return dump(m)
		}},
		{"ElementWiseMatrixMultiply", anyFormat, func(o operand) string {
			m := out(o)
			gb.ElementWiseMatrixMultiply[float64](bg, o.x, o.y, nil, m)
			return dump(m)
		}},
		{"ElementWiseMatrixAdd", anyFormat, func(o operand) string {
			m := out(o)
			gb.ElementWiseMatrixAdd[float64](bg, o.x, o.y, o.x, m)
			return dump(m)
		}},
		{"Transpose", square, func(o operand) string {
			m := out(o)
			gb.Transpose[float64](bg, o.x, o.x, m)
			return dump(m)
		}},
		{"TransposeToCSR/CSC", anyFormat, func(o operand) string {
			return dump(gb.TransposeToCSR[float64](bg, o.x)) + dump(gb.TransposeToCSC[float64](bg, o.x))
		}},
		{"ReduceMatrixToScalar", anyFormat, func(o operand) string {
			return fmt.Sprint(gb.ReduceMatrixToScalar[float64](bg, o.x, nil))
		}},
		{"ReduceMatrixToScalar, masked by x", anyFormat, func(o operand) string {
			return fmt.Sprint(gb.ReduceMatrixToScalar[float64](bg, o.y, o.x))
		}},
		{"ReduceMatrixToVector", anyFormat, func(o operand) string { return dump(gb.ReduceMatrixToVector[float64](bg, o.x)) }},
		{"Symmetric/SkewSymmetric", anyFormat, func(o operand) string {
			return fmt.Sprint(symmetric.Symmetric[float64](o.x), skewsymmetric.SkewSymmetric[float64](o.x))
		}},
		{"Reduced", anyFormat, func(o operand) string { return dump(reduced.Reduced[float64](o.x)) }},
		{"breadth-first search", square, func(o operand) string {
			n := 0
			v := breadthfirst.Search[float64](bg, o.x, 0, func(v gb.Vector[float64]) bool { n++; return false })
			return fmt.Sprint(n) + dump(v)
		}},
		{"Strassen, large crossover", square, func(o operand) string {
			return dump(strassen.MultiplyCrossoverPoint[float64](bg, o.x, o.y, 8))
		}},
		{"matrix-vector products", square, func(o operand) string {
			v, w := gb.NewSparseVectorFromArray([]float64{2, -1}), gb.NewDenseVectorN[float64](2)
			gb.MatrixVectorMultiply[float64](bg, o.x, v, nil, w)
			s := dump(w)
			u := gb.NewDenseVectorN[float64](2)
			gb.VectorMatrixMultiply[float64](bg, v, o.x, nil, u)
			return s + dump(u)
		}},
		{"AtVec/Length", vectorLike, func(o operand) string {
			s := ""
			v := o.x.(gb.Vector[float64])
			for i := 0; i < v.Length(); i++ {
				s += fmt.Sprint(v.AtVec(i), " ")
			}
			return s
		}},
		{"element-wise vector ops", vectorLike, func(o operand) string {
			p, q := o.f.empty(), o.f.empty()
			gb.ElementWiseVectorMultiply[float64](bg, o.x.(gb.Vector[float64]), o.y.(gb.Vector[float64]), nil, p.(gb.Vector[float64]))
			gb.ElementWiseVectorAdd[float64](bg, o.x.(gb.Vector[float64]), o.y.(gb.Vector[float64]), o.x, q.(gb.Vector[float64]))
			return dump(p) + dump(q)
		}},
		{"ReduceVectorToScalar", vectorLike, func(o operand) string {
			return fmt.Sprint(gb.ReduceVectorToScalar[float64](bg, o.x.(gb.Vector[float64]), nil),
				gb.ReduceVectorToScalarWithMonoID[float64](bg, o.x.(gb.Vector[float64]), gb.DefaultMonoIDMaximum[float64](), nil))
		}},
	}
	return ops
}

// writers change x; each goroutine has its own.
func writers() []namedOp {
	return []namedOp{
		{"Set all", anyFormat, func(o operand) string {
			for i := 0; i < o.f.r*o.f.c; i++ {
				o.x.Set(i/o.f.c, i%o.f.c, float64(5-i%3*5))
			}
			return dump(o.x)
		}},
		{"Update all", anyFormat, func(o operand) string {
			for i := 0; i < o.f.r*o.f.c; i++ {
				o.x.Update(i/o.f.c, i%o.f.c, func(v float64) float64 { return 1 - v })
			}
			return dump(o.x)
		}},
		{"Clear", anyFormat, func(o operand) string { o.x.Clear(); return dump(o.x) }},
		{"Map", anyFormat, func(o operand) string {
			for m := o.x.Map(); m.HasNext(); {
				m.Map(func(r, c int, v float64) float64 { return v - 1 })
			}
			return dump(o.x)
		}},
		{"Negative in place", anyFormat, func(o operand) string { gb.Negative[float64](bg, o.x, nil, o.x); return dump(o.x) }},
		{"Add into itself", anyFormat, func(o operand) string { gb.Add[float64](bg, o.x, o.y, nil, o.x); return dump(o.x) }},
		{"Apply in place", anyFormat, func(o operand) string {
			gb.Apply[float64](bg, o.x, nil, unaryop.NewUnaryOp(func(v float64) float64 { return v * v }), o.x)
			return dump(o.x)
		}},
		{"construct from an array", anyFormat, func(o operand) string {
			a := [][]float64{{1, 0, 2}, {0, 3, 0}}
			return dump(gb.NewCSRMatrixFromArray(a)) + dump(gb.NewCSCMatrixFromArray(a)) + dump(gb.NewDenseMatrixFromArrayN(a)) +
				dump(gb.NewSparseVectorFromArray(a[0])) + dump(gb.NewDenseVectorFromArrayN(a[0]))
		}},
		{"stream reduction", anyFormat, func(o operand) string {
			done, slice := make(chan struct{}), make(chan int, 1)
			out := digits().Reduce(done, slice)
			vsched.Go(func() { stream{2, 1, true, 0}.feed(done, slice, 1) })
			return fmt.Sprint(vsched.Recv(out))
		}},
		{"operators", anyFormat, func(o operand) string {
			return fmt.Sprint(binaryop.Addition[float64]().Apply(1, 2), binaryop.Minimum[float64]().Apply(3, 4), gb.DefaultMonoIDMaximum[float64]().Zero())
		}},
		{"Resize", vectorLike, func(o operand) string {
			v, ok := o.x.(interface{ ReSize(int) int })
			if !ok {
				return ""
			}
			v.ReSize(6)
			return dump(o.x)
		}},
		{"masked by EmptyMask", anyFormat, func(o operand) string {
			k := gb.NewEmptyMask(o.f.r, o.f.c)
			gb.Add[float64](bg, o.x, o.y, k, o.x)
			return fmt.Sprint(k.Element(0, 0)) + dump(o.x)
		}},
		{"context with a mode", anyFormat, func(o operand) string {
			m, ok := gb.BlockingMode(gb.NewContext(bg, gb.NonBlocking))
			return fmt.Sprint(m, ok)
		}},
		{"sort letters", anyFormat, func(o operand) string {
			a := letters("ba", "ab")
			return gb.String(bg, gbsort.BubbleRow(bg, a)) + gb.String(bg, gbsort.BubbleColumns(bg, a))
		}},
	}
}

func letters(rows ...string) gb.MatrixRune {
	m := gb.NewDenseMatrix[rune](len(rows), len(rows[0]))
	for i, s := range rows {
		for j, c := range s {
			m.Set(i, j, c)
		}
	}
	return m
}

// result is what f returns, or that it panics.
func result(f func() string) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprint("panic: ", p)
		}
	}()
	return f()
}

func (n namedOp) safely(o operand) string { return result(func() string { return n.run(o) }) }

// pair runs two operations at the same time and compares each result with the one obtained alone.
func pair(r *rep.R, desc string, f, g func() (func() string, func() string)) {
	explore(r, desc, func() program {
		vsched.Cold()
		fa, _ := f()
		g()
		fw := result(fa)
		vsched.Cold()
		f()
		ga, _ := g()
		gw := result(ga)
		var fr, gr string
		var after, after2 func() string
		return program{
			opt: vsched.Options{MaxExec: 3000, Bounds: []int{0, 1, 2}},
			body: func() {
				var a, b func() string
				a, after = f()
				b, after2 = g()
				join(func() { vsched.Yield(); fr = result(a) }, func() { vsched.Yield(); gr = result(b) })
			},
			check: func() string {
				if fr != fw {
					return fmt.Sprintf("the first returned %s, alone %s", fr, fw)
				}
				if gr != gw {
					return fmt.Sprintf("the second returned %s, alone %s", gr, gw)
				}
				if after != nil {
					if s := after(); s != "" {
						return s
					}
				}
				if after2 != nil {
					return after2()
				}
				return ""
			},
		}
	})
}

func p21(r *rep.R) {
	rs := readers()
	r.Group("readers of one object", "every pair of reading operations on the same object (content codes 3, 6 and 9 of each format; thorough: all), a second operand shared as well")
	for _, f := range formats {
		var codes []int
		for c := 0; c < f.contents(); c++ {
			if r.Thorough || c == 3 || c == 6 || c == 9 {
				codes = append(codes, c)
			}
		}
		for _, code := range codes {
			for i, a := range rs {
				if !a.ok(f) {
					continue
				}
				for _, b := range rs[i:] {
					if !b.ok(f) {
						continue
					}
					other := (code*5 + 3) % f.contents()
					// both get the same operands, made in f (first called)
					var o operand
					first := func() (func() string, func() string) {
						o = operand{f, f.make(code), f.make(other)}
						p := o
						return func() string { return a.run(p) }, func() string {
							if s := f.same(p.x, code); s != "" {
								return s
							}
							return f.same(p.y, other)
						}
					}
					second := func() (func() string, func() string) {
						p := o
						return func() string { return b.run(p) }, nil
					}
					pair(r, fmt.Sprintf("%v content %d: %s | %s", f, code, a.name, b.name), first, second)
				}
			}
		}
	}
	r.Group("readers of letters", "every pair of comparing, rendering and sorting operations on shared letter matrices")
	type lop struct {
		name string
		run  func(a, b gb.MatrixRune) string
	}
	lops := []lop{
		{"Compare", func(a, b gb.MatrixRune) string { return fmt.Sprint(gb.Compare(bg, a, b), gb.Compare(bg, b, a)) }},
		{"Less/Greater", func(a, b gb.MatrixRune) string { return fmt.Sprint(gb.Less(bg, a, b), gb.Greater(bg, a, b)) }},
		{"String", func(a, b gb.MatrixRune) string { return gb.String(bg, a) + gb.String(bg, b) }},
		{"Equal", func(a, b gb.MatrixRune) string { return fmt.Sprint(gb.Equal[rune](bg, a, b), a.NotEqual(b)) }},
		{"BubbleRow", func(a, b gb.MatrixRune) string { return gb.String(bg, gbsort.BubbleRow(bg, a)) }},
		{"BubbleColumns", func(a, b gb.MatrixRune) string { return gb.String(bg, gbsort.BubbleColumns(bg, a)) }},
		{"Transpose", func(a, b gb.MatrixRune) string { return gb.String(bg, a.Transpose()) }},
		{"CopyLogical", func(a, b gb.MatrixRune) string { c := a.CopyLogical(); c.Clear(); return gb.String(bg, a) }},
	}
	for i, p := range lops {
		for _, q := range lops[i:] {
			var x, y gb.MatrixRune
			first := func() (func() string, func() string) {
				x, y = letters("ca", "ab"), letters("cb", "aa")
				a, b := x, y
				return func() string { return p.run(a, b) }, func() string {
					if s := fmt.Sprint(a.At(0, 0), a.At(0, 1), a.At(1, 0), a.At(1, 1)); s != fmt.Sprint('c', 'a', 'a', 'b') {
						return "the shared letters changed to " + s
					}
					return ""
				}
			}
			second := func() (func() string, func() string) {
				a, b := x, y
				return func() string { return q.run(a, b) }, nil
			}
			pair(r, p.name+" | "+q.name, first, second)
		}
	}
	r.Group("unrelated objects", "every pair of operations, reading or writing, each on objects of its own (same format; thorough: every pair of formats)")
	all := append(writers(), rs...)
	for fi, f := range formats {
		for gi, g := range formats {
			if gi != fi && !r.Thorough && gi != (fi+1)%len(formats) {
				continue
			}
			for i, a := range all {
				for j, b := range all {
					if !a.ok(f) || !b.ok(g) || fi == gi && j < i {
						continue
					}
					if fi != gi && !r.Thorough && (i+j)%3 != 0 {
						continue
					}
					mk := func(f format, op namedOp, code, other int) func() (func() string, func() string) {
						return func() (func() string, func() string) {
							o := operand{f, f.make(code), f.make(other)}
							return func() string { return op.run(o) }, nil
						}
					}
					pair(r, fmt.Sprintf("%v: %s | %v: %s", f, a.name, g, b.name), mk(f, a, 6, 5), mk(g, b, 3, 6))
				}
			}
		}
	}
	r.Group("three readers", "reductions, products, enumeration and masked sums by three goroutines on one object")
	pick := []string{"Enumerate", "ReduceMatrixToScalar", "Add, masked by x", "Transpose method", "At", "Equal"}
	var sel []namedOp
	for _, o := range rs {
		for _, n := range pick {
			if o.name == n {
				sel = append(sel, o)
			}
		}
	}
	for _, f := range formats {
		for i, a := range sel {
			for j, b := range sel[i:] {
				for _, c := range sel[i+j:] {
					explore(r, fmt.Sprintf("%v: %s | %s | %s", f, a.name, b.name, c.name), func() program {
						code := 6
						alone := func(op namedOp) string {
							vsched.Cold()
							return op.safely(operand{f, f.make(code), f.make(5)})
						}
						want := [3]string{alone(a), alone(b), alone(c)}
						var got [3]string
						var o operand
						return program{
							opt: vsched.Options{MaxExec: 3000, Bounds: []int{0, 1}},
							body: func() {
								o = operand{f, f.make(code), f.make(5)}
								join(func() { vsched.Yield(); got[0] = a.safely(o) }, func() { vsched.Yield(); got[1] = b.safely(o) }, func() { vsched.Yield(); got[2] = c.safely(o) })
							},
							check: func() string {
								if got != want {
									return fmt.Sprintf("got %v, alone %v", got, want)
								}
								return f.same(o.x, code)
							},
						}
					})
				}
			}
		}
	}
}
