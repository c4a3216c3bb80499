package main

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"unsafe"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"verif.local/mc/model"
	"verif.local/mc/rep"
)

type tnum = constraints.Number

// Mat is the reference matrix.
type Mat[T constraints.Type] = model.Mat[T]

// fm is a storage format.
type fm int

const (
	fCSR fm = iota
	fCSC
	fDEN
	fSV
	fDV
	fDENL // dense matrix without arithmetic
	fDVL  // dense vector without arithmetic
	fOWD  // a dense matrix of the caller's own
	fOWS  // a sparse matrix of the caller's own
	fOWV  // a dense vector of the caller's own
)

func (f fm) String() string {
	return [...]string{"CSR", "CSC", "Dense", "SparseVector", "DenseVector", "DenseLogical", "DenseVectorLogical", "own dense", "own sparse", "own vector"}[f]
}

func (f fm) vector() bool { return f == fSV || f == fDV || f == fDVL || f == fOWV }
func (f fm) sparse() bool { return f == fCSR || f == fCSC || f == fSV || f == fOWS }

var matF = []fm{fCSR, fCSC, fDEN}
var vecF = []fm{fSV, fDV}
var matFL = []fm{fCSR, fCSC, fDEN, fDENL}
var vecFL = []fm{fSV, fDV, fDVL}

// fmts are the arithmetic formats able to hold a matrix with c columns.
func fmts(c int) []fm {
	if c == 1 {
		return slices.Concat(matF, vecF)
	}
	return matF
}

// fmtsL are all formats able to hold a matrix with c columns.
func fmtsL(c int) []fm {
	if c == 1 {
		return slices.Concat(matFL, vecFL)
	}
	return matFL
}

const routes = 6

var routeNames = [routes]string{"from-array", "set-rows", "set-reverse", "overwrite", "update", "clear-then-set"}

// empty returns a new all-zero object.
func empty[T constraints.Number](f fm, r, c int) gb.Matrix[T] {
	switch f {
	case fCSR:
		return gb.NewCSRMatrix[T](r, c)
	case fCSC:
		return gb.NewCSCMatrix[T](r, c)
	case fDEN:
		return gb.NewDenseMatrixN[T](r, c)
	case fSV:
		return gb.NewSparseVector[T](r)
	case fDV:
		return gb.NewDenseVectorN[T](r)
	case fOWD:
		return ownOf[T](gb.NewDenseMatrixN[T](r, c))
	case fOWS:
		return ownOf[T](gb.NewCSRMatrix[T](r, c))
	case fOWV:
		return ownOf[T](gb.NewDenseVectorN[T](r))
	}
	panic("empty: format")
}

func emptyL[T constraints.Number](f fm, r, c int) gb.MatrixLogical[T] {
	switch f {
	case fDENL:
		return gb.NewDenseMatrix[T](r, c)
	case fDVL:
		return gb.NewDenseVector[T](r)
	}
	return empty[T](f, r, c)
}

// note records the state of an object (format, element type, shape, content) as visited.
func note[T constraints.Type](f int, m Mat[T]) {
	h := uint64(14695981039346656037)
	mix := func(x uint64) {
		h ^= x
		h *= 1099511628211
		h ^= h >> 29
	}
	mix(uint64(f))
	mix(uint64(m.R))
	mix(uint64(m.C))
	switch d := any(m.D).(type) {
	case []float64:
		mix(1)
		for _, v := range d {
			mix(math.Float64bits(v + 0))
		}
	case []bool:
		mix(2)
		for _, v := range d {
			if v {
				mix(1)
			} else {
				mix(0)
			}
		}
	case []int8:
		mix(3)
		for _, v := range d {
			mix(uint64(v))
		}
	case []uint8:
		mix(4)
		for _, v := range d {
			mix(uint64(v))
		}
	default:
		var z T
		for _, b := range fmt.Sprintf("%T %v", z, m.D) {
			mix(uint64(b))
		}
	}
	rep.Seen(h)
}

// mk builds an arithmetic object with the model's content by the given route.
func mk[T constraints.Number](f fm, m Mat[T], route int) gb.Matrix[T] {
	note(int(f), m)
	if route == 0 && m.R > 0 && m.C > 0 {
		switch f {
		case fCSR:
			return gb.NewCSRMatrixFromArray(m.Rows())
		case fCSC:
			return gb.NewCSCMatrixFromArray(m.Rows())
		case fDEN:
			return gb.NewDenseMatrixFromArrayN(m.Rows())
		case fSV:
			return gb.NewSparseVectorFromArray(append([]T(nil), m.D...))
		case fDV:
			return gb.NewDenseVectorFromArrayN(append([]T(nil), m.D...))
		}
	}
	x := empty[T](f, m.R, m.C)
	fill[T](x, m, route)
	return x
}

// mkL builds an object of any format.
func mkL[T constraints.Number](f fm, m Mat[T], route int) gb.MatrixLogical[T] {
	switch f {
	case fDENL:
		note(int(f), m)
		if route == 0 && m.R > 0 && m.C > 0 {
			return gb.NewDenseMatrixFromArray(m.Rows())
		}
	case fDVL:
		note(int(f), m)
		if route == 0 {
			return gb.NewDenseVectorFromArray(append([]T(nil), m.D...))
		}
	default:
		return mk(f, m, route)
	}
	x := emptyL[T](f, m.R, m.C)
	fill[T](x, m, route)
	return x
}

func fill[T constraints.Number](x gb.MatrixLogical[T], m Mat[T], route int) {
	var zero T
	switch route {
	case 0, 1:
		for i := range m.D {
			if m.D[i] != zero {
				x.Set(i/m.C, i%m.C, m.D[i])
			}
		}
	case 2:
		for i := len(m.D) - 1; i >= 0; i-- {
			x.Set(i/m.C, i%m.C, m.D[i])
		}
	case 3:
		for c := 0; c < m.C; c++ {
			for r := m.R - 1; r >= 0; r-- {
				x.Set(r, c, T(7))
			}
		}
		for c := m.C - 1; c >= 0; c-- {
			for r := 0; r < m.R; r++ {
				x.Set(r, c, m.At(r, c))
			}
		}
	case 4:
		for i := range m.D {
			v := m.D[i]
			x.Update(i/m.C, i%m.C, func(T) T { return v })
		}
	case 5:
		for i := range m.D {
			x.Set(i/m.C, i%m.C, T(9))
		}
		x.Clear()
		for i := range m.D {
			j := (i*5 + 3) % len(m.D)
			if len(m.D)%5 == 0 {
				j = i
			}
			x.Set(j/m.C, j%m.C, m.D[j])
		}
	}
}

// read reads every cell.
func read[T constraints.Type](x gb.MatrixLogical[T]) Mat[T] {
	r, c := x.Rows(), x.Columns()
	m := Mat[T]{R: r, C: c, D: make([]T, 0, r*c)}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			m.D = append(m.D, x.At(i, j))
		}
	}
	return m
}

// expect compares shape and every cell.
func expect[T constraints.Type](x gb.MatrixLogical[T], want Mat[T], what string) error {
	if isNil(x) {
		return rep.Errf("%s: nil result, want %v", what, want)
	}
	if x.Rows() != want.R || x.Columns() != want.C {
		return rep.Errf("%s: shape %dx%d, want %dx%d", what, x.Rows(), x.Columns(), want.R, want.C)
	}
	note(100, want)
	for i := 0; i < want.R; i++ {
		for j := 0; j < want.C; j++ {
			if v := x.At(i, j); !model.Same(v, want.At(i, j)) {
				return rep.Errf("%s: cell (%d,%d) = %v, want %v; result %v, want %v", what, i, j, v, want.At(i, j), read(x), want)
			}
		}
	}
	if gb.IsSparseMatrix(x) {
		// a sparse result holds its nonzero cells and nothing else
		var zero T
		n := 0
		for _, v := range want.D {
			if v != zero {
				n++
			}
		}
		if g := x.Values(); g != n {
			return rep.Errf("%s: %d elements, want %d; %v", what, g, n, want)
		}
	}
	return nil
}

func isNil(x any) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

// enumerated lists what Enumerate yields, bounded.
func enumerated[T constraints.Type](x gb.MatrixLogical[T], want Mat[T], sparse bool) error {
	var zero T
	seen := make([]int, len(want.D))
	n := 0
	it := x.Enumerate()
	for it.HasNext() {
		if n > len(want.D) {
			return rep.Errf("enumeration does not end after %d elements", n)
		}
		if n%2 == 0 && !it.HasNext() {
			return rep.Errf("HasNext changed its answer without Next")
		}
		r, c, v := it.Next()
		n++
		if r < 0 || c < 0 || r >= want.R || c >= want.C {
			return rep.Errf("enumeration yields (%d,%d)", r, c)
		}
		if !model.Same(v, want.At(r, c)) {
			return rep.Errf("enumeration yields (%d,%d)=%v, want %v; content %v", r, c, v, want.At(r, c), want)
		}
		if seen[r*want.C+c]++; seen[r*want.C+c] > 1 {
			return rep.Errf("enumeration yields (%d,%d) twice; content %v", r, c, want)
		}
		if sparse && v == zero {
			return rep.Errf("compressed format enumerates the zero cell (%d,%d); content %v", r, c, want)
		}
	}
	if it.HasNext() {
		return rep.Errf("HasNext true after the end")
	}
	for i, s := range seen {
		if s == 0 && (!sparse || want.D[i] != zero) {
			return rep.Errf("enumeration misses (%d,%d)=%v; content %v", i/want.C, i%want.C, want.D[i], want)
		}
	}
	if x.Values() != n {
		return rep.Errf("Values() = %d, enumerated %d; content %v", x.Values(), n, want)
	}
	if x.Size() != want.R*want.C || x.Rows() != want.R || x.Columns() != want.C {
		return rep.Errf("size %d, %dx%d; want %dx%d", x.Size(), x.Rows(), x.Columns(), want.R, want.C)
	}
	return nil
}

// results are the last results of this case that were overwritten, with what must have stayed in them.
var results struct {
	id   uint64 // the case
	n    int
	held []func() error
}

// recall checks that the former results are as they were left.
func recall() error {
	if results.id != rep.CaseID() {
		results.id, results.held, results.n = rep.CaseID(), nil, 0
	}
	for _, f := range results.held {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

func hold(f func() error) {
	if len(results.held) == 8 {
		results.held = append(results.held[:0:0], results.held[1:]...)
	}
	results.held = append(results.held, f)
}

// spoil overwrites a result, which must leave the operands it was made from as they were (the caller
// looks), and the results before it too; making it must have left those as they were as well.
func spoil[T tnum](xs ...gb.MatrixLogical[T]) error {
	if err := recall(); err != nil {
		return rep.Errf("after another one was made: %v", err)
	}
	for _, x := range xs {
		results.n++
		v := T(5 + results.n%3)
		rows, cols := min(x.Rows(), 4), min(x.Columns(), 4)
		for i := 0; i < rows; i++ {
			for j := 0; j < cols; j++ {
				x.Set(i, j, v)
			}
		}
		if err := recall(); err != nil {
			return rep.Errf("after another one was written: %v", err)
		}
		hold(func() error {
			for i := 0; i < rows; i++ {
				for j := 0; j < cols; j++ {
					if g := x.At(i, j); g != v {
						return rep.Errf("an earlier result (%T %dx%d) has changed: cell (%d,%d) = %v, was %v", x, x.Rows(), x.Columns(), i, j, g, v)
					}
				}
			}
			return nil
		})
	}
	return nil
}

// spoilArray is spoil for an array.
func spoilArray[T tnum](a []T) error {
	if err := recall(); err != nil {
		return rep.Errf("after an array was made: %v", err)
	}
	results.n++
	v := T(5 + results.n%3)
	for i := range a {
		a[i] = v
	}
	if err := recall(); err != nil {
		return rep.Errf("after an array was written: %v", err)
	}
	hold(func() error {
		for i := range a {
			if a[i] != v {
				return rep.Errf("an earlier array has changed: element %d = %v, was %v", i, a[i], v)
			}
		}
		return nil
	})
	return nil
}

// fresh is expect for a new result, which is spoilt afterwards.
func fresh[T tnum](x gb.MatrixLogical[T], want Mat[T], what string) error {
	if err := expect(x, want, what); err != nil {
		return err
	}
	if err := spoil(x); err != nil {
		return rep.Errf("%s: %v", what, err)
	}
	return nil
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			p = true
		}
	}()
	f()
	return false
}

// first runs checks until one fails.
func first(fs ...func() error) error {
	for _, f := range fs {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

// spare says whether a fingerprint covers spare capacity.
var spare bool

// withSpare runs f with states told apart by their spare capacity too.
func withSpare(f func() error) error {
	spare = true
	defer func() { spare = false }()
	return f()
}

// fingerprint is a deep rendering of everything reachable from x, unexported fields included.
func fingerprint(x any) string {
	var b strings.Builder
	seen := map[unsafe.Pointer]int{}
	fp(&b, reflect.ValueOf(x), seen, 0)
	return b.String()
}

func fp(b *strings.Builder, v reflect.Value, seen map[unsafe.Pointer]int, depth int) {
	if depth > 12 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		p := v.UnsafePointer()
		if i, ok := seen[p]; ok {
			fmt.Fprintf(b, "#%d", i)
			return
		}
		seen[p] = len(seen)
		b.WriteByte('&')
		fp(b, v.Elem(), seen, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Elem().Type().String())
		fp(b, v.Elem(), seen, depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			fp(b, v.Field(i), seen, depth+1)
			b.WriteByte(';')
		}
		b.WriteByte('}')
	case reflect.Slice:
		// spare capacity is memory too: it shows when the slice is extended without being cleared
		fmt.Fprintf(b, "%d/%d[", v.Len(), v.Cap())
		if all := v.Cap(); spare && all > v.Len() {
			v = v.Slice(0, all)
		}
		for i := 0; i < v.Len(); i++ {
			fp(b, v.Index(i), seen, depth+1)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			fp(b, v.Index(i), seen, depth+1)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Map:
		// order-insensitive
		keys := v.MapKeys()
		var out []string
		for _, k := range keys {
			var kb strings.Builder
			fp(&kb, k, seen, depth+1)
			kb.WriteByte(':')
			fp(&kb, v.MapIndex(k), seen, depth+1)
			out = append(out, kb.String())
		}
		sortStrings(out)
		b.WriteString("map" + strings.Join(out, ","))
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v", v.Float())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		b.WriteString(v.Kind().String())
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// op is one operation of a state graph: it acts on the real object and the model and
// reports a wrong outcome of the call itself.
type op[X any, M any] struct {
	name string
	do   func(x X, m *M) error
}

// graph explores the reachable state graph of a real object breadth first until no new
// concrete state appears (or maxStates), checking the object after every transition.
// A state is the object's complete memory together with the model's.
func graph[X any, M any](r *rep.R, newX func() (X, M), clone func(M) M, mkey func(M) string, ops func(M) []op[X, M], check func(X, M) error, maxStates int) error {
	type node struct {
		path []op[X, M]
	}
	build := func(p []op[X, M]) (X, M, error) {
		x, m := newX()
		for _, o := range p {
			if err := o.do(x, &m); err != nil {
				return x, m, err
			}
		}
		return x, m, nil
	}
	names := func(p []op[X, M]) string {
		var s []string
		for _, o := range p {
			s = append(s, o.name)
		}
		return strings.Join(s, "; ")
	}
	x, m := newX()
	if err := check(x, m); err != nil {
		return rep.Errf("initially: %v", err)
	}
	seen := map[string]bool{fingerprint(x) + "|" + mkey(m): true}
	queue := []node{{}}
	r.State(1)
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		_, m0, _ := build(n.path)
		for _, o := range ops(m0) {
			x, m, err := build(n.path)
			if err == nil {
				path := append(append([]op[X, M](nil), n.path...), o)
				if e := rep.Safely(func() error { return o.do(x, &m) }); e != nil {
					return rep.Errf("after [%s]: %v", names(path), e)
				}
				r.Step(1)
				k := fingerprint(x) + "|" + mkey(m)
				if !seen[k] {
					seen[k] = true
					r.State(1)
					if e := rep.Safely(func() error { return check(x, m) }); e != nil {
						return rep.Errf("after [%s]: %v", names(path), e)
					}
					if len(seen) >= maxStates {
						r.Note(fmt.Sprintf("a state graph was cut at %d states", maxStates), true)
						return nil
					}
					queue = append(queue, node{path})
				}
			} else {
				return rep.Errf("history [%s] is not repeatable: %v", names(n.path), err)
			}
		}
	}
	return nil
}

// tc carries an element type.
type tc[T constraints.Number] struct {
	name string
	deep bool
}

// half is a nonzero value whose square wraps to zero in the integer types (for floats a
// power of two small enough to keep every sum of products exact).
func (t tc[T]) half() T {
	if t.float() {
		return 8
	}
	var z T
	v := T(1)
	for i := 0; i < int(unsafe.Sizeof(z))*4; i++ {
		v *= 2
	}
	return v
}

// big is a value a narrower type does not hold; its sums of few products are exact in floats.
func (t tc[T]) big() T {
	var z T
	n := int(unsafe.Sizeof(z))*8 - 2
	if t.float() {
		n = 10
		if unsafe.Sizeof(z) == 8 {
			n = 24
		}
	}
	return t.pow2(n) + 1
}

// wide uses (for floats: all) the bits of the type; for storage, not arithmetic.
func (t tc[T]) wide() T {
	var z T
	if !t.float() {
		return t.big()
	}
	if unsafe.Sizeof(z) == 8 {
		return t.pow2(50) + 1
	}
	return t.pow2(20) + 1
}

func (t tc[T]) pow2(n int) T {
	v := T(1)
	for i := 0; i < n; i++ {
		v *= 2
	}
	return v
}

func (t tc[T]) float() bool { one := T(1); return one/2 != 0 }

// signed reports whether the type has negative values.
func (t tc[T]) signed() bool { one := T(1); return -one < 0 }

// negZero is the zero with the other sign; the same zero for integers.
func (t tc[T]) negZero() T {
	var z T
	return z * t.neg1()
}

// neg1 is -1, or its wrapped value.
func (t tc[T]) neg1() T { one := T(1); return -one }

// lowest is the lowest value of a signed integer type, the high bit of an unsigned one, and top the value
// before it; for floats, two values of moderate size.
func (t tc[T]) lowest() T {
	if t.float() {
		return t.neg1() * t.big()
	}
	var z T
	return t.pow2(int(unsafe.Sizeof(z))*8 - 1)
}

func (t tc[T]) top() T {
	if t.float() {
		return t.big()
	}
	return t.lowest() - 1
}

// frac is a value strictly between 0 and 1 for the float types, 3 otherwise.
func (t tc[T]) frac() T {
	if t.float() {
		return T(1) / 2
	}
	return 3
}

// alpha5 is an alphabet with the values where arithmetic goes wrong.
func (t tc[T]) alpha5() []T {
	if t.float() {
		return []T{0, 1, t.neg1(), t.half(), t.big(), t.tiny(), t.negZero()}
	}
	return []T{0, 1, t.neg1(), t.half(), t.big()}
}

// special are the values a float can hold that are not numbers of moderate size, nil for integers.
func (t tc[T]) special() []T {
	if !t.float() {
		return nil
	}
	inf := T(1)
	for inf != inf*2 {
		inf *= 2
	}
	return []T{0, inf - inf, inf, -inf, t.negZero()}
}

// close are values next to one another.
func (t tc[T]) close() []T {
	if !t.float() {
		return []T{1, 2, t.big(), t.big() + 1}
	}
	n := 23
	if unsafe.Sizeof(T(0)) == 8 {
		n = 52
	}
	return []T{1, 1 + 1/t.pow2(n), t.pow2(n), t.pow2(n) + 1}
}

// tiny is nonzero but smaller than any tolerance, and its square is zero (for integers: 5).
func (t tc[T]) tiny() T {
	if !t.float() {
		return 5
	}
	n := 140
	if unsafe.Sizeof(T(0)) == 8 {
		n = 1040
	}
	v := T(1)
	for i := 0; i < n; i++ {
		v /= 2
	}
	return v
}

// shapes up to n x n (n x 1 and 1 x n included).
func shapes(lo, hi int) [][2]int {
	var out [][2]int
	for r := lo; r <= hi; r++ {
		for c := lo; c <= hi; c++ {
			out = append(out, [2]int{r, c})
		}
	}
	return out
}

// long are shapes with long lines, past any plausible size threshold of the code.
func (t tc[T]) long(single bool) [][2]int {
	var out [][2]int
	if t.deep {
		out = [][2]int{{1, 300}, {300, 1}}
		if single && t.name == "float64" {
			out = append(out, [2]int{1, 1100}, [2]int{1100, 1})
		}
	}
	return out
}

// family is a deterministic family of large contents, by number.
const families = 10

func family[T constraints.Number](r, c, k int, a, b T) Mat[T] {
	m := model.New[T](r, c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			var v T
			x := uint64(i*c+j)*2654435761 + uint64(k)*97
			x ^= x >> 13
			switch k {
			case 0: // zero
			case 1: // full
				v = T(1 + (i*3+j)%5)
			case 2: // diagonal
				if i == j {
					v = T(1 + i%7)
				}
			case 3: // antidiagonal
				if i+j == c-1 {
					v = a
				}
			case 4: // last column and last row
				if i == r-1 || j == c-1 {
					v = T(1 + (i+j)%3)
				}
			case 5: // first column and first row
				if i == 0 || j == 0 {
					v = b
				}
			case 6: // scattered
				if x%5 == 0 {
					v = T(1 + x%6)
				}
			case 7: // rows and columns missing
				if i%2 == 1 && j%3 == 1 {
					v = T(2)
				}
			case 8: // mixed sign
				switch x % 3 {
				case 0:
					v = a
				case 1:
					v = b
				}
			case 9: // single last cell
				if i == r-1 && j == c-1 {
					v = T(3)
				}
			}
			m.Set(i, j, v)
		}
	}
	return m
}

// perms lists all permutations of 0..n-1.
func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// orders lists structured orders of 0..n-1.
func orders(n int) map[string][]int {
	asc := make([]int, n)
	for i := range asc {
		asc[i] = i
	}
	desc := make([]int, n)
	for i := range desc {
		desc[i] = n - 1 - i
	}
	var eo, oe, mid, ends []int
	for i := 0; i < n; i += 2 {
		eo = append(eo, i)
	}
	for i := 1; i < n; i += 2 {
		eo = append(eo, i)
		oe = append(oe, i)
	}
	for i := 0; i < n; i += 2 {
		oe = append(oe, i)
	}
	for i, j := (n-1)/2, (n-1)/2+1; i >= 0 || j < n; i, j = i-1, j+1 {
		if i >= 0 {
			mid = append(mid, i)
		}
		if j < n {
			mid = append(mid, j)
		}
	}
	for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
		ends = append(ends, i)
		if i != j {
			ends = append(ends, j)
		}
	}
	stride := make([]int, 0, n)
	st := 7
	for gcd(st, n) != 1 {
		st++
	}
	for i := 0; i < n; i++ {
		stride = append(stride, i*st%n)
	}
	return map[string][]int{"ascending": asc, "descending": desc, "evens-odds": eo, "odds-evens": oe, "middle-out": mid, "ends-in": ends, "stride": stride}
}

var orderNames = []string{"ascending", "descending", "evens-odds", "odds-evens", "middle-out", "ends-in", "stride"}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// blockEdge tells whether an index lies where blocks of 8 to 64 elements meet or at an end.
func blockEdge(i, n int) bool {
	switch i {
	case 0, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, n - 1:
		return true
	}
	return false
}
