package main

// Objects of many rows or columns seen through a window: the rows and columns a
// history talks about lie far apart in the object it drives.

import (
	"math/rand"
	"sort"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

type gapMat[T constraints.Type] struct {
	g.MatrixLogical[T]
	ri, ci []int // what the rows and columns of the window are
	br, bc int   // the dimensions of the object
}

type gapVec[T constraints.Type] struct{ *gapMat[T] }

func newGap[T constraints.Type](in g.MatrixLogical[T], ri, ci []int, br, bc int) g.MatrixLogical[T] {
	m := &gapMat[T]{in, ri, ci, br, bc}
	if _, ok := in.(vecLike[T]); ok {
		return gapVec[T]{m}
	}
	return m
}

func unwrap[T constraints.Type](m g.MatrixLogical[T]) g.MatrixLogical[T] {
	switch x := m.(type) {
	case *gapMat[T]:
		return x.MatrixLogical
	case gapVec[T]:
		return x.MatrixLogical
	}
	return m
}

// rewrap looks at another object through the window of m
func rewrap[T constraints.Type](m, in g.MatrixLogical[T]) g.MatrixLogical[T] {
	switch x := m.(type) {
	case *gapMat[T]:
		return newGap[T](in, x.ri, x.ci, x.br, x.bc)
	case gapVec[T]:
		return newGap[T](in, x.ri, x.ci, x.br, x.bc)
	}
	return in
}

func dim(got, want, window int) int {
	if got == want {
		return window
	}
	return -1
}

func (m *gapMat[T]) Rows() int    { return dim(m.MatrixLogical.Rows(), m.br, len(m.ri)) }
func (m *gapMat[T]) Columns() int { return dim(m.MatrixLogical.Columns(), m.bc, len(m.ci)) }
func (m *gapMat[T]) Size() int {
	return dim(m.MatrixLogical.Size(), m.br*m.bc, len(m.ri)*len(m.ci))
}
func (m *gapMat[T]) At(r, c int) T     { return m.MatrixLogical.At(m.ri[r], m.ci[c]) }
func (m *gapMat[T]) Set(r, c int, v T) { m.MatrixLogical.Set(m.ri[r], m.ci[c], v) }
func (m *gapMat[T]) Update(r, c int, f func(T) T) {
	m.MatrixLogical.Update(m.ri[r], m.ci[c], f)
}
func (m *gapMat[T]) SetReturnPointer(r, c int, v T) (int, int) {
	return m.MatrixLogical.(compressed[T]).SetReturnPointer(m.ri[r], m.ci[c], v)
}
func (m *gapMat[T]) UpdateReturnPointer(r, c int, f func(T) T) (int, int) {
	return m.MatrixLogical.(compressed[T]).UpdateReturnPointer(m.ri[r], m.ci[c], f)
}
func (m *gapMat[T]) RowsAt(r int) g.VectorLogial[T] {
	return newGap[T](m.MatrixLogical.RowsAt(m.ri[r]), m.ci, []int{0}, m.bc, 1).(gapVec[T])
}
func (m *gapMat[T]) ColumnsAt(c int) g.VectorLogial[T] {
	return newGap[T](m.MatrixLogical.ColumnsAt(m.ci[c]), m.ri, []int{0}, m.br, 1).(gapVec[T])
}
func (m *gapMat[T]) RowsAtToArray(r int) []T {
	a := m.MatrixLogical.RowsAtToArray(m.ri[r])
	out := []T{}
	for _, c := range m.ci {
		out = append(out, a[c])
	}
	if len(a) != m.bc {
		out = append(out, a...)
	}
	return out
}
func (m *gapMat[T]) CopyLogical() g.MatrixLogical[T] {
	return newGap[T](m.MatrixLogical.CopyLogical(), m.ri, m.ci, m.br, m.bc)
}
func (m gapVec[T]) AtVec(i int) T     { return m.MatrixLogical.(vecLike[T]).AtVec(m.ri[i]) }
func (m gapVec[T]) SetVec(i int, v T) { m.MatrixLogical.(vecLike[T]).SetVec(m.ri[i], v) }
func (m gapVec[T]) Length() int {
	return dim(m.MatrixLogical.(vecLike[T]).Length(), m.br, len(m.ri))
}

// huge: rows are too long to be copied
func huge[T constraints.Type](m g.MatrixLogical[T]) bool {
	return unwrap(m).Columns() > 1000000
}

func place(of []int, x int) int {
	if i := sort.SearchInts(of, x); i < len(of) && of[i] == x {
		return i
	}
	return -1
}

type gapEnum[T constraints.Type] struct {
	g.Enumerate[T]
	m *gapMat[T]
}

func (e gapEnum[T]) Next() (int, int, T) {
	r, c, v := e.Enumerate.Next()
	return place(e.m.ri, r), place(e.m.ci, c), v
}
func (m *gapMat[T]) Enumerate() g.Enumerate[T] { return gapEnum[T]{m.MatrixLogical.Enumerate(), m} }

type gapMap[T constraints.Type] struct {
	it g.Map[T]
	m  *gapMat[T]
}

func (e gapMap[T]) HasNext() bool { return e.it.HasNext() }

func (e gapMap[T]) Map(f func(r, c int, v T) T) {
	e.it.Map(func(r, c int, v T) T { return f(place(e.m.ri, r), place(e.m.ci, c), v) })
}
func (m *gapMat[T]) Map() g.Map[T] { return gapMap[T]{m.MatrixLogical.(mapper[T]).Map(), m} }

// spill lists non-zero cells outside the window, where narrowed indices would put them
func spill[T constraints.Type](m g.MatrixLogical[T]) [][]int {
	out := [][]int{}
	x, ok := m.(*gapMat[T])
	if v, isVec := m.(gapVec[T]); isVec {
		x, ok = v.gapMat, true
	}
	if !ok {
		return out
	}
	near := func(of []int, n int) []int {
		set := map[int]bool{}
		for _, i := range of {
			for _, k := range []int{i, i & 0xff, i & 0x7f, i & 0xffff, i & 0x7fff, i & 0xffffffff, i & 0x7fffffff, i - 1, i + 1, n - 1 - i} {
				if k >= 0 && k < n {
					set[k] = true
				}
			}
		}
		l := []int{}
		for k := range set {
			l = append(l, k)
		}
		return l
	}
	cols := near(x.ci, x.bc)
	for _, r := range near(x.ri, x.br) {
		for _, c := range cols {
			if (place(x.ri, r) < 0 || place(x.ci, c) < 0) && !g.IsZero(x.MatrixLogical.At(r, c)) {
				out = append(out, []int{r, c})
			}
		}
	}
	return out
}

// window picks k indices below n, some of which agree in their low bits
func window(r *rand.Rand, n, k int) []int {
	set := map[int]bool{n - 1: true}
	base := r.Intn(200)
	steps := []int{1, 128, 256, 1 << 15, 1 << 16, 1 << 31, 1 << 32}
	if r.Intn(3) > 0 { // two that agree in their low bits
		step := steps[2+r.Intn(len(steps)-2)]
		if x := r.Intn(300); x+step < n && k > 2 {
			set[x], set[x+step] = true, true
		}
	}
	for len(set) < k {
		x := base + r.Intn(2)
		for _, s := range steps {
			if r.Intn(3) == 0 {
				x += s
			}
		}
		switch r.Intn(6) {
		case 0:
			x = r.Intn(n)
		case 1:
			x = n - 1 - r.Intn(3)
		}
		if x >= 0 && x < n {
			set[x] = true
		}
	}
	out := []int{}
	for x := range set {
		out = append(out, x)
	}
	sort.Ints(out)
	return out
}

// collide picks two positions of the window, if there are any, whose indices agree in their low bits
func collide(r *rand.Rand, w []int) (int, int) {
	var pairs [][2]int
	for i := range w {
		for j := range w[:i] {
			if d := w[i] - w[j]; d >= 256 && d&(d-1) == 0 {
				pairs = append(pairs, [2]int{i, j}, [2]int{j, i})
			}
		}
	}
	if len(pairs) == 0 {
		return r.Intn(len(w)), r.Intn(len(w))
	}
	p := pairs[r.Intn(len(pairs))]
	return p[0], p[1]
}

func all(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// gapRuns drives objects of thousands and of thousands of millions of rows or columns
func gapRuns(t *tracer, fl obsFlags, rnd *rand.Rand) {
	wide := []int{70000, 200000, 1<<17 + 3, 1<<31 + 77, 1<<33 + 5}
	n := 2
	if thorough {
		n = 12
	}
	for i := 0; i < n; i++ {
		for _, w := range wide {
			for j, kind := range []string{"csr", "csr", "csc", "csc", "sv", "sv", "dn", "dvn", "dm", "dv"} {
				if j >= 6 && (w > 200000 || fl.enum || (i > 0 && !thorough)) {
					continue
				}
				if fl.enum && w > 200000 && kind != "sv" { // the iterators pass over every column
					continue
				}
				p := Prog{}
				steps, k := 30, 4+rnd.Intn(3)
				if fl.views {
					steps, k = 8, 4
				}
				switch {
				case isVecKind(kind):
					p.BR, p.BC = w, 1
				case kind[0] == 'd' && rnd.Intn(2) == 0:
					p.BR, p.BC = 3, w/3+60000
				case (kind == "csr") == (j%2 == 0) || w > 200000: // the long way
					p.BR, p.BC = 2+rnd.Intn(2), w
				default:
					p.BR, p.BC = w/3+60000, 3
				}
				if kind == "csc" {
					p.BR, p.BC = p.BC, p.BR
				}
				p.ri, p.ci = all(p.BR%100000), all(p.BC%100000)
				if p.BR > 3 {
					p.ri = window(rnd, p.BR, k)
				}
				if p.BC > 3 {
					p.ci = window(rnd, p.BC, k)
				}
				withStore(numTypes[rnd.Intn(13)], func(h storeHandle) {
					q := randProg(rnd, len(p.ri), len(p.ci), steps, h.toks(), false)
					if len(q.Steps) > 4 { // a clear of something, and a while after it
						q.Steps[len(q.Steps)-4] = Step{Op: "clear"}
					}
					q.From, q.BR, q.BC, q.ri, q.ci = nil, p.BR, p.BC, p.ri, p.ci
					h.run(t, kind, q, fl, i+j)
				})
			}
		}
	}
}
