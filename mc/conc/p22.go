package main

import (
	"fmt"

	gb "github.com/rossmerr/graphblas"

	"verif.local/mc/rep"
	"verif.local/mc/vsched"
)

// shared is what a lock-protected matrix and the matrix it wraps have in common.
type shared interface {
	gb.Mask
	At(r, c int) float64
	Set(r, c int, v float64)
	Update(r, c int, f func(float64) float64)
	ColumnsAt(c int) gb.VectorLogial[float64]
	RowsAt(r int) gb.VectorLogial[float64]
	RowsAtToArray(r int) []float64
	Scalar(alpha float64) gb.Matrix[float64]
	Multiply(m gb.Matrix[float64]) gb.Matrix[float64]
	Add(m gb.Matrix[float64]) gb.Matrix[float64]
	Subtract(m gb.Matrix[float64]) gb.Matrix[float64]
	Negative() gb.MatrixLogical[float64]
	Transpose() gb.MatrixLogical[float64]
	Equal(m gb.MatrixLogical[float64]) bool
	NotEqual(m gb.MatrixLogical[float64]) bool
	Size() int
	Values() int
	Clear()
	Enumerate() gb.Enumerate[float64]
	Map() gb.Map[float64]
}

func copied(m shared) gb.MatrixLogical[float64] {
	switch x := m.(type) {
	case interface{ Copy() gb.Matrix[float64] }:
		return x.Copy()
	case interface {
		Copy() gb.MatrixLogical[float64]
	}:
		return x.Copy()
	}
	panic("no Copy")
}

// call is one call, or several that count as one, on the shared matrix.
// later is what is done with the result after the call, when others may write again.
type call struct {
	name string
	ok   func(f format) bool
	run  func(f format, m shared) (later func() string)
	// a call made of several atomic ones: parts says which positions it treats given the
	// content when it starts (nil: the positions are fixed, all cells); part does one.
	multi  bool
	snap   bool // the first atomic part takes a snapshot of the positions holding nonzero values
	part   func(f format, m shared, cell int) string
	panics bool
}

func done(s string) func() string { return func() string { return s } }
func nonzero(x []float64) string {
	s := ""
	for i, v := range x {
		if v != 0 {
			s += fmt.Sprintf("%d=%v ", i, v)
		}
	}
	return s
}

func vec(v gb.VectorLogial[float64]) string {
	s := ""
	for i := 0; i < v.Length(); i++ {
		s += fmt.Sprint(v.AtVec(i), " ")
	}
	return s
}

func (f format) last() int { return f.r*f.c - 1 }

func single(name string, run func(f format, m shared) string) call {
	return call{name: name, ok: anyFormat, run: func(f format, m shared) func() string { return done(run(f, m)) }}
}

func lazily(name string, run func(f format, m shared) func() string) call {
	return call{name: name, ok: anyFormat, run: run}
}

func plus(d float64) func(float64) float64 {
	return func(v float64) float64 { return v + d }
}

// yielding is plus with a scheduling point while the caller holds whatever it holds.
func yielding(d float64) func(float64) float64 {
	return func(v float64) float64 { vsched.Yield(); return v + d }
}

// counted runs an update and says which values its function was called with: once, with the
// value the element has at that moment.
func (f format) counted(m shared, i int, u func(float64) float64) string {
	s := "called with"
	f.update(m, i, func(v float64) float64 { s += fmt.Sprint(" ", v); return u(v) })
	return s
}

func (f format) set(m shared, i int, v float64) { m.Set(i/f.c, i%f.c, v) }
func (f format) at(m shared, i int) float64     { return m.At(i/f.c, i%f.c) }
func (f format) update(m shared, i int, u func(float64) float64) {
	m.Update(i/f.c, i%f.c, u)
}

// alphabet is every method of the lock-protected matrix.
func alphabet() []call {
	fixed := func(f format) gb.Matrix[float64] { return f.make(0b1011 & (f.contents() - 1)) }
	cs := []call{
		single("At(0)", func(f format, m shared) string { return fmt.Sprint(f.at(m, 0)) }),
		single("At(last)", func(f format, m shared) string { return fmt.Sprint(f.at(m, f.last())) }),
		single("Set(0,50)", func(f format, m shared) string { f.set(m, 0, 50); return "" }),
		single("Set(last,70)", func(f format, m shared) string { f.set(m, f.last(), 70); return "" }),
		single("Set(0,0)", func(f format, m shared) string { f.set(m, 0, 0); return "" }),
		single("Set(last,0)", func(f format, m shared) string { f.set(m, f.last(), 0); return "" }),
		single("Update(0,+10)", func(f format, m shared) string { return f.counted(m, 0, plus(10)) }),
		single("Update(last,+20)", func(f format, m shared) string { return f.counted(m, f.last(), yielding(20)) }),
		single("Update(0,=0)", func(f format, m shared) string { return f.counted(m, 0, func(float64) float64 { return 0 }) }),
		single("Clear", func(f format, m shared) string { m.Clear(); return "" }),
		single("Values", func(f format, m shared) string { return fmt.Sprint(m.Values()) }),
		single("Size", func(f format, m shared) string { return fmt.Sprint(m.Size(), m.Rows(), m.Columns()) }),
		single("Element(0)", func(f format, m shared) string { return fmt.Sprint(m.Element(0, 0)) }),
		lazily("RowsAt(0)", func(f format, m shared) func() string {
			v := m.RowsAt(0)
			return func() string { return vec(v) }
		}),
		lazily("RowsAtToArray(last)", func(f format, m shared) func() string {
			v := m.RowsAtToArray(f.r - 1)
			return func() string { return fmt.Sprint(v) }
		}),
		lazily("ColumnsAt(0)", func(f format, m shared) func() string {
			v := m.ColumnsAt(0)
			return func() string { return vec(v) }
		}),
		lazily("ColumnsAt(0) then write it", func(f format, m shared) func() string {
			v := m.ColumnsAt(0)
			return func() string { v.SetVec(0, 33); return vec(v) }
		}),
		lazily("Copy", func(f format, m shared) func() string {
			c := copied(m)
			return func() string { return dump(c) }
		}),
		lazily("Copy then write it", func(f format, m shared) func() string {
			c := copied(m)
			return func() string { c.Set(0, 0, 44); return dump(c) }
		}),
		lazily("Enumerate", func(f format, m shared) func() string {
			e := m.Enumerate()
			return func() string {
				out := make([]float64, f.r*f.c)
				n := 0
				for ; e.HasNext() && n < 50; n++ {
					r, c, v := e.Next()
					out[r*f.c+c] += v
				}
				return nonzero(out)
			}
		}),
		lazily("Transpose", func(f format, m shared) func() string {
			c := m.Transpose()
			return func() string { return dump(c) }
		}),
		lazily("Negative", func(f format, m shared) func() string {
			c := m.Negative()
			return func() string { return dump(c) }
		}),
		lazily("Scalar", func(f format, m shared) func() string {
			c := m.Scalar(2)
			return func() string { return dump(c) }
		}),
		lazily("Add", func(f format, m shared) func() string {
			c := m.Add(fixed(f))
			return func() string { return dump(c) }
		}),
		lazily("Subtract", func(f format, m shared) func() string {
			c := m.Subtract(fixed(f))
			return func() string { return dump(c) }
		}),
		single("Equal", func(f format, m shared) string { return fmt.Sprint(m.Equal(fixed(f))) }),
		single("NotEqual", func(f format, m shared) string { return fmt.Sprint(m.NotEqual(fixed(f))) }),
		{name: "Map(+100)", ok: anyFormat, multi: true, snap: true,
			run: func(f format, m shared) func() string {
				n := 0
				for it := m.Map(); it.HasNext() && n < 50; n++ {
					it.Map(func(r, c int, v float64) float64 { return v + 100 })
				}
				return done("")
			},
			part: func(f format, m shared, i int) string { f.update(m, i, plus(100)); return "" }},
		{name: "Enumerate and Update(+1000)", ok: anyFormat, multi: true, snap: true,
			run: func(f format, m shared) func() string {
				n := 0
				for it := m.Enumerate(); it.HasNext() && n < 50; n++ {
					r, c, _ := it.Next()
					m.Update(r, c, plus(1000))
				}
				return done("")
			},
			part: func(f format, m shared, i int) string { f.update(m, i, plus(1000)); return "" }},
		{name: "used as a mask", ok: anyFormat, multi: true,
			run: func(f format, m shared) func() string {
				x, out := f.make(f.contents()-1), gb.NewDenseMatrixN[float64](f.r, f.c)
				gb.Negative[float64](bg, x, m, out)
				s := ""
				for i := 0; i < f.r*f.c; i++ {
					s += fmt.Sprint(out.At(i/f.c, i%f.c) == 0, " ")
				}
				return done(s)
			},
			part: func(f format, m shared, i int) string { return fmt.Sprint(m.Element(i/f.c, i%f.c), " ") }},
	}
	mul := lazily("Multiply", func(f format, m shared) func() string {
		c := m.Multiply(f.make(7))
		return func() string { return dump(c) }
	})
	mul.ok = square
	return append(cs, mul)
}

// failing are calls that panic.
func failing() []call {
	p := func(name string, run func(f format, m shared)) call {
		return call{name: name, ok: anyFormat, panics: true, run: func(f format, m shared) func() string { run(f, m); return done("returned") }}
	}
	wrong := func(f format) gb.Matrix[float64] { return f.mkWrong() }
	return []call{
		p("Update, panicking function", func(f format, m shared) { m.Update(0, 0, func(float64) float64 { panic("mine") }) }),
		p("Update, panicking function, last", func(f format, m shared) {
			m.Update(f.r-1, f.c-1, func(float64) float64 { vsched.Yield(); panic("mine") })
		}),
		p("Map, panicking function", func(f format, m shared) {
			m.Set(0, 0, 3)
			m.Map().Map(func(r, c int, v float64) float64 { panic("mine") })
		}),
		p("At, invalid row", func(f format, m shared) { m.At(f.r, 0) }),
		p("At, invalid column", func(f format, m shared) { m.At(0, -1) }),
		p("Set, invalid row", func(f format, m shared) { m.Set(-1, 0, 1) }),
		p("Set, invalid column", func(f format, m shared) { m.Set(0, f.c, 1) }),
		p("Update, invalid", func(f format, m shared) { m.Update(f.r, 0, plus(1)) }),
		p("RowsAt, invalid", func(f format, m shared) { m.RowsAt(f.r) }),
		p("RowsAtToArray, invalid", func(f format, m shared) { m.RowsAtToArray(-1) }),
		p("ColumnsAt, invalid", func(f format, m shared) { m.ColumnsAt(f.c) }),
		p("Element, invalid", func(f format, m shared) { m.Element(f.r, 0) }),
		p("Add, mismatched", func(f format, m shared) { m.Add(wrong(f)) }),
		p("Subtract, mismatched", func(f format, m shared) { m.Subtract(wrong(f)) }),
		p("Multiply, mismatched", func(f format, m shared) { m.Multiply(wrong(f)) }),
	}
}

func (f format) mkWrong() gb.Matrix[float64] {
	if f.c == 1 {
		return f.mk(f.r+2, 1)
	}
	return f.mk(f.r+1, f.c+1)
}

// ---- linearizability -----------------------------------------------------------

type event struct {
	c        *call
	inv, ret int
	res      string
}

// outcomes of one atomic part on the wrapped matrix alone, by state.
type outcome struct {
	next []float64
	res  string
}

type lin struct {
	f    format
	memo map[string]outcome
	dead map[string]bool // positions of the search that lead nowhere
}

func (l *lin) apply(c *call, part int, st []float64) outcome {
	k := fmt.Sprint(c.name, part, st)
	if o, ok := l.memo[k]; ok {
		return o
	}
	m := l.f.of(st)
	var res string
	if c.multi {
		res = result(func() string { return c.part(l.f, m, part) })
	} else if c.panics {
		res = "panic"
		o := outcome{st, res}
		l.memo[k] = o
		return o
	} else {
		res = result(func() string { return c.run(l.f, m)() })
	}
	next := make([]float64, len(st))
	for i := range next {
		next[i] = m.At(i/l.f.c, i%l.f.c)
	}
	o := outcome{next, res}
	l.memo[k] = o
	return o
}

// progress of one event: parts done and their results.
type progress struct {
	started bool
	todo    uint32
	res     []string
	done    bool
}

// explain looks for an order of the calls (of their atomic parts) that agrees with the
// results, real time and the final content.
func (l *lin) explain(st []float64, hist []event, final []float64) bool {
	ps := make([]progress, len(hist))
	l.dead = map[string]bool{}
	return l.search(st, hist, ps, final)
}

func (l *lin) search(st []float64, hist []event, ps []progress, final []float64) bool {
	key := fmt.Sprint(st)
	for i := range ps {
		p := &ps[i]
		if p.done {
			key += ";d"
		} else {
			key += fmt.Sprint(";", p.started, p.todo, p.res)
		}
	}
	if l.dead[key] {
		return false
	}
	ok := l.step(st, hist, ps, final)
	if !ok {
		l.dead[key] = true
	}
	return ok
}

func (l *lin) step(st []float64, hist []event, ps []progress, final []float64) bool {
	all := true
	for i := range ps {
		if !ps[i].done {
			all = false
			break
		}
	}
	if all {
		for i := range final {
			if st[i] != final[i] {
				return false
			}
		}
		return true
	}
	for i := range hist {
		if ps[i].done {
			continue
		}
		// every call that returned before this one was invoked comes first
		free := true
		for j := range hist {
			if !ps[j].done && hist[j].ret < hist[i].inv {
				free = false
				break
			}
		}
		if !free {
			continue
		}
		c := hist[i].c
		if !c.multi {
			o := l.apply(c, 0, st)
			if o.res != hist[i].res {
				continue
			}
			ps[i].done = true
			if l.search(o.next, hist, ps, final) {
				return true
			}
			ps[i].done = false
			continue
		}
		old := ps[i]
		if !old.started {
			p := progress{started: true, res: make([]string, len(st))}
			for k, v := range st {
				if !c.snap || v != 0 || l.f.dense {
					p.todo |= 1 << k
				}
			}
			p.done = p.todo == 0
			ps[i] = p
			if l.search(st, hist, ps, final) {
				return true
			}
			ps[i] = old
			continue
		}
		for k := range st {
			if old.todo>>k&1 == 0 {
				continue
			}
			o := l.apply(c, k, st)
			p := progress{started: true, todo: old.todo &^ (1 << k), res: append([]string(nil), old.res...)}
			p.res[k] = o.res
			if p.todo == 0 {
				got := ""
				for _, s := range p.res {
					got += s
				}
				if got != hist[i].res {
					continue
				}
				p.done = true
			}
			ps[i] = p
			if l.search(o.next, hist, ps, final) {
				return true
			}
			ps[i] = old
		}
	}
	return false
}

// calls explores threads of calls on one lock-protected matrix.
func calls(r *rep.R, desc string, f format, code int, opt vsched.Options, l *lin, threads [][]*call) {
	explore(r, desc, func() program {
		n := 0
		var hist []event
		for _, t := range threads {
			n += len(t)
		}
		hist = make([]event, n)
		var x gb.Matrix[float64]
		var mm *gb.MutexMatrix[float64]
		opt.NoCache = true
		start := f.cells(code)
		seen := map[string]bool{}
		return program{opt: opt, body: func() {
			x = f.make(code)
			mm = gb.NewMutexMatrix[float64](x)
			var fs []func()
			k := 0
			for _, t := range threads {
				base := k
				k += len(t)
				fs = append(fs, func() {
					for j, c := range t {
						vsched.Yield()
						e := &hist[base+j]
						e.c = c
						e.inv = vsched.Now()
						var later func() string
						s := caught(func() { later = c.run(f, mm) })
						e.ret = vsched.Now()
						if s == "" {
							if !c.multi && opt.Bounds == nil {
								vsched.Yield()
							}
							s = result(later)
						}
						e.res = s
					}
				})
			}
			join(fs...)
		}, check: func() string {
			final := make([]float64, f.r*f.c)
			s := caught(func() {
				for i := range final {
					final[i] = mm.At(i/f.c, i%f.c)
				}
			})
			if s != "" {
				return "the matrix can no longer be read: " + s
			}
			// histories repeat: judge each once
			key := fmt.Sprint(final)
			for i := range hist {
				key += fmt.Sprint("|", hist[i].res)
				for j := range hist {
					if hist[j].ret < hist[i].inv {
						key += fmt.Sprint(",", j)
					}
				}
			}
			if seen[key] {
				return ""
			}
			seen[key] = true
			if !l.explain(start, hist, final) {
				s := fmt.Sprintf("no sequential order explains the results, starting from %v:", start)
				for _, e := range hist {
					s += fmt.Sprintf(" %s -> %q [%d,%d];", e.c.name, e.res, e.inv, e.ret)
				}
				return s + fmt.Sprintf(" final content %v", final)
			}
			return ""
		}}
	})
}

func choose(cs []call, names ...string) (out []*call) {
	for _, n := range names {
		for i := range cs {
			if cs[i].name == n {
				out = append(out, &cs[i])
			}
		}
	}
	if len(out) != len(names) {
		panic("unknown call name")
	}
	return
}

func p22(r *rep.R) {
	cs := alphabet()
	r.Group("two goroutines, one call each", "every pair of methods on every wrapped format, every schedule")
	for _, f := range formats {
		l := &lin{f: f, memo: map[string]outcome{}}
		for _, code := range []int{1 | 1<<f.last(), 2} {
			for i := range cs {
				for j := i; j < len(cs); j++ {
					if !cs[i].ok(f) || !cs[j].ok(f) || code == 2 && !r.Thorough && (i+j)%2 != 0 {
						continue
					}
					calls(r, fmt.Sprintf("%v content %d: %s || %s", f, code, cs[i].name, cs[j].name), f, code, vsched.Options{Bounds: nil}, l, [][]*call{{&cs[i]}, {&cs[j]}})
				}
			}
		}
	}
	r.Group("two goroutines, two calls each", "every pair of sequences over a selection of methods, at most 2 preemptions (thorough 3)")
	sel := choose(cs, "At(0)", "Set(0,50)", "Update(0,+10)", "Update(last,+20)", "Clear", "Copy", "Set(0,0)", "Enumerate", "Values")
	fs := []format{formats[0], formats[1], formats[2]}
	bounds := []int{0, 1, 2}
	if r.Thorough {
		sel = append(sel, choose(cs, "Map(+100)", "Add", "RowsAt(0)")...)
		fs = formats
		bounds = []int{0, 1, 2, 3}
	}
	for _, f := range fs {
		l := &lin{f: f, memo: map[string]outcome{}}
		n := len(sel)
		for a := 0; a < n*n; a++ {
			for b := a; b < n*n; b++ {
				t, u := []*call{sel[a/n], sel[a%n]}, []*call{sel[b/n], sel[b%n]}
				calls(r, fmt.Sprintf("%v: %s; %s || %s; %s", f, t[0].name, t[1].name, u[0].name, u[1].name), f, 1, vsched.Options{Bounds: bounds}, l, [][]*call{t, u})
			}
		}
	}
	r.Group("three goroutines, one call each", "every triple over a selection of methods, at most 2 preemptions (thorough 3)")
	sel = choose(cs, "At(0)", "Set(0,50)", "Update(0,+10)", "Update(last,+20)", "Clear", "Enumerate", "Map(+100)", "Equal", "Set(0,0)", "used as a mask")
	for _, f := range formats {
		l := &lin{f: f, memo: map[string]outcome{}}
		for a := range sel {
			for b := a; b < len(sel); b++ {
				for c := b; c < len(sel); c++ {
					calls(r, fmt.Sprintf("%v: %s || %s || %s", f, sel[a].name, sel[b].name, sel[c].name), f, 1|1<<f.last(), vsched.Options{Bounds: bounds}, l, [][]*call{{sel[a]}, {sel[b]}, {sel[c]}})
				}
			}
		}
	}
	r.Group("one call against several writes", "every call that reads more than one cell, comparisons with each content the writes pass through or combine to, against a goroutine making every sequence of two or three writes to the first and the last cell: a result must be that of one moment; at most 3 preemptions (thorough: every schedule)")
	whole := choose(cs, "Values", "Copy", "Enumerate", "Transpose", "Negative", "Scalar", "Add", "Subtract", "RowsAt(0)", "RowsAtToArray(last)", "ColumnsAt(0)", "Map(+100)")
	writes := choose(cs, "Set(0,50)", "Set(0,0)", "Set(last,70)", "Set(last,0)")
	bounds = []int{0, 1, 2, 3}
	if r.Thorough {
		whole = append(whole, choose(cs, "Clear", "used as a mask", "Update(0,+10)", "Update(last,+20)")...)
		bounds = nil
	}
	for k := 0; k < 4; k++ {
		k := k
		against := func(f format) gb.Matrix[float64] {
			x := f.empty()
			if k&1 != 0 {
				f.set(x, 0, 50)
			}
			if k&2 != 0 {
				f.set(x, f.last(), 70)
			}
			return x
		}
		eq := single(fmt.Sprintf("Equal, comparand %d", k), func(f format, m shared) string { return fmt.Sprint(m.Equal(against(f))) })
		ne := single(fmt.Sprintf("NotEqual, comparand %d", k), func(f format, m shared) string { return fmt.Sprint(m.NotEqual(against(f))) })
		whole = append(whole, &eq, &ne)
	}
	var seqs [][]*call
	for a := range writes {
		for b := range writes {
			if a == b {
				continue
			}
			seqs = append(seqs, []*call{writes[a], writes[b]})
			for c := range writes {
				if b != c {
					seqs = append(seqs, []*call{writes[a], writes[b], writes[c]})
				}
			}
		}
	}
	for _, f := range formats {
		l := &lin{f: f, memo: map[string]outcome{}}
		for _, code := range []int{0, 1, 1 << f.last()} {
			for i, w := range whole {
				for j, ws := range seqs {
					if !r.Thorough && len(ws) == 3 && code != 0 && (i+j)%3 != 0 {
						continue
					}
					name := ""
					for _, c := range ws {
						name += c.name + "; "
					}
					calls(r, fmt.Sprintf("%v content %d: %s || %s", f, code, w.name, name), f, code, vsched.Options{Bounds: bounds}, l, [][]*call{{w}, ws})
				}
			}
		}
	}
	r.Group("two matrices", "calls on two lock-protected matrices at once do not affect each other")
	for _, f := range formats {
		for i := range cs {
			for j := range cs {
				if !cs[i].ok(f) || !cs[j].ok(f) || !r.Thorough && (i+j)%5 != 0 {
					continue
				}
				explore(r, fmt.Sprintf("%v: %s | %s", f, cs[i].name, cs[j].name), func() program {
					one := func(c *call, code int) (m *gb.MutexMatrix[float64], run func() string) {
						m = gb.NewMutexMatrix[float64](f.make(code))
						return m, func() string { return result(func() string { return c.run(f, m)() }) }
					}
					m, w := one(&cs[i], 1)
					w1 := w() + dumpShared(f, m)
					m, w = one(&cs[j], 2)
					w2 := w() + dumpShared(f, m)
					var m1, m2 *gb.MutexMatrix[float64]
					var r1, r2 string
					return program{opt: vsched.Options{MaxExec: 5000}, body: func() {
						var f1, f2 func() string
						m1, f1 = one(&cs[i], 1)
						m2, f2 = one(&cs[j], 2)
						join(func() { r1 = f1() }, func() { r2 = f2() })
					}, check: func() string {
						g1, g2 := r1+dumpShared(f, m1), r2+dumpShared(f, m2)
						if g1 != w1 || g2 != w2 {
							return fmt.Sprintf("got %q and %q, alone %q and %q", g1, g2, w1, w2)
						}
						return ""
					}}
				})
			}
		}
	}
}

func dumpShared(f format, m shared) string {
	s := ""
	for i := 0; i < f.r*f.c; i++ {
		s += fmt.Sprint(" ", f.at(m, i))
	}
	return s
}

func p23(r *rep.R) {
	bad, good := failing(), alphabet()
	// a Map whose function panics first sets a cell, so it is judged as the sequence it is
	for i := range bad {
		if bad[i].name == "Map, panicking function" {
			bad[i].run = func(f format, m shared) func() string {
				it := m.Map()
				for n := 0; it.HasNext() && n < 50; n++ {
					it.Map(func(r, c int, v float64) float64 { panic("mine") })
				}
				panic("nothing to map")
			}
		}
	}
	r.Group("a failing call and another call", "every failing call against every call, failing or not; every schedule")
	for _, f := range formats {
		l := &lin{f: f, memo: map[string]outcome{}}
		code := 1 | 1<<f.last()
		for i := range bad {
			if !usable(f, &bad[i]) {
				continue
			}
			for j := range good {
				if !good[j].ok(f) {
					continue
				}
				t := [][]*call{{&bad[i]}, {&good[j]}}
				calls(r, fmt.Sprintf("%v: %s || %s", f, bad[i].name, good[j].name), f, code, vsched.Options{}, l, t)
			}
			for j := i; j < len(bad); j++ {
				if usable(f, &bad[j]) {
					calls(r, fmt.Sprintf("%v: %s || %s", f, bad[i].name, bad[j].name), f, code, vsched.Options{}, l, [][]*call{{&bad[i]}, {&bad[j]}})
				}
			}
		}
	}
	bounds := []int{0, 1, 2}
	if r.Thorough {
		bounds = []int{0, 1, 2, 3}
	}
	r.Group("a failing call, then another", "a goroutine whose failing call is followed by another call, against one more goroutine reading or writing, up to 2 preemptions (thorough 3)")
	after := choose(good, "At(0)", "Set(0,50)", "Update(0,+10)", "Enumerate", "Map(+100)", "Equal", "Clear")
	other := choose(good, "At(last)", "Update(last,+20)", "Copy")
	for _, f := range formats {
		l := &lin{f: f, memo: map[string]outcome{}}
		code := 1 | 1<<f.last()
		for i := range bad {
			if !usable(f, &bad[i]) {
				continue
			}
			for _, a := range after {
				for _, o := range other {
					calls(r, fmt.Sprintf("%v: %s; %s || %s", f, bad[i].name, a.name, o.name), f, code, vsched.Options{Bounds: bounds}, l, [][]*call{{&bad[i], a}, {o}})
				}
			}
		}
	}
	r.Group("three goroutines", "readers and writers in threes, looking for a lock held twice or in a different order, up to 2 preemptions (thorough 3)")
	sel := choose(good, "At(0)", "Update(0,+10)", "Enumerate", "Map(+100)", "Equal", "used as a mask", "Add", "Enumerate and Update(+1000)")
	sel = append(sel, &bad[0], &bad[3])
	for _, f := range formats {
		l := &lin{f: f, memo: map[string]outcome{}}
		for a := range sel {
			for b := a; b < len(sel); b++ {
				for c := b; c < len(sel); c++ {
					if !r.Thorough && (a+b+c)%2 != 0 {
						continue
					}
					calls(r, fmt.Sprintf("%v: %s || %s || %s", f, sel[a].name, sel[b].name, sel[c].name), f, 1, vsched.Options{Bounds: bounds}, l, [][]*call{{sel[a]}, {sel[b]}, {sel[c]}})
				}
			}
		}
	}
}

// usable says whether the call really fails on the matrix alone.
func usable(f format, c *call) bool {
	return c.ok(f) && caught(func() { c.run(f, f.make(1|1<<f.last())) }) != ""
}
