package main

import (
	"context"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

// warm gives objects a past: some of their cells are changed, run looks at them (its results are
// not recorded), and the cells are given back their values. What is recorded next must not depend
// on it. It says how run ended.
func warm[T constraints.Type](n int, run func(), objs ...g.MatrixLogical[T]) string {
	type past struct {
		m g.MatrixLogical[T]
		d []T
	}
	var old []past
	seen := map[g.MatrixLogical[T]]bool{}
	for _, m := range objs {
		if m == nil || seen[m] {
			continue
		}
		seen[m] = true
		if m.Rows()*m.Columns() > 4096 {
			return "ok"
		}
		d := []T{}
		for i := 0; i < m.Rows()*m.Columns(); i++ {
			d = append(d, m.At(i/m.Columns(), i%m.Columns()))
		}
		old = append(old, past{m, d})
	}
	var z T
	for i, o := range old {
		m, size := o.m, len(o.d)
		if size < 1 {
			continue
		}
		cols := m.Columns()
		x, y := (n*7+i*3)%size, (n*11+i+size/2)%size
		switch n / 3 % 3 {
		case 0, 1: // two cells exchanged, so that as many are stored
			if m.At(x/cols, x%cols) == z { // one that holds something
				for k := 0; k < size; k++ {
					if at := (x + k) % size; m.At(at/cols, at%cols) != z {
						x = at
						break
					}
				}
			}
			v, w := m.At(x/cols, x%cols), m.At(y/cols, y%cols)
			m.Set(x/cols, x%cols, w)
			m.Set(y/cols, y%cols, v)
		default: // another value
			v := m.At(y/cols, y%cols)
			m.Set(x/cols, x%cols, v)
		}
	}
	res := guard(run)
	for _, o := range old {
		cols := o.m.Columns()
		for i, v := range o.d {
			if o.m.At(i/cols, i%cols) != v {
				o.m.Set(i/cols, i%cols, v)
			}
		}
	}
	return res
}

func some[T constraints.Number](ms ...g.Matrix[T]) (out []g.MatrixLogical[T]) {
	for _, m := range ms {
		if m != nil {
			out = append(out, m)
		}
	}
	return
}

// pastCtx: the past of an object may hold calls that were cancelled
func pastCtx(n int) context.Context {
	switch n % 5 {
	case 1:
		return newPointCtx(1 + n/5%23)
	case 3:
		return newPointCtx(1 + n/5%4)
	}
	return anyCtx(n)
}

// failMask panics at some point
type failMask struct {
	g.Mask
	r, c, left int
}

func (f *failMask) Rows() int    { return f.r }
func (f *failMask) Columns() int { return f.c }
func (f *failMask) Element(r, c int) bool {
	if f.left--; f.left < 0 {
		panic("the mask of an earlier call")
	}
	return f.Mask != nil && f.Mask.Element(r, c)
}
