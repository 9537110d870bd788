package main

import (
	"math/rand"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

// C05: comparisons of every pair of formats, both ways round, as functions and as methods

type eqObj struct {
	K string `json:"k"`
	R int    `json:"r"`
	C int    `json:"c"`
	D []int  `json:"d"`
}
type eqCase struct {
	A eqObj `json:"a"`
	B eqObj `json:"b"`
}

func eqDriver(t *tracer) {
	var gen []eqCase
	readGen(&gen)
	rnd := rand.New(rand.NewSource(seed))
	per := 4
	if thorough {
		per = 40
	}
	run := func(c eqCase, n int) {
		switch n % 15 {
		case 0:
			eqRun[bool](t, rnd, c, mkLogicalBool, []string{"dm", "dv"})
		case 1:
			eqNum[int](t, rnd, c)
		case 2:
			eqNum[int8](t, rnd, c)
		case 3:
			eqNum[int16](t, rnd, c)
		case 4:
			eqNum[int32](t, rnd, c)
		case 5:
			eqNum[int64](t, rnd, c)
		case 6:
			eqNum[uint](t, rnd, c)
		case 7:
			eqNum[uint8](t, rnd, c)
		case 8:
			eqNum[uint16](t, rnd, c)
		case 9:
			eqNum[uint32](t, rnd, c)
		case 10:
			eqNum[uint64](t, rnd, c)
		case 11:
			eqNum[uintptr](t, rnd, c)
		case 12:
			eqNum[float32](t, rnd, c)
		default:
			eqNum[float64](t, rnd, c)
		}
	}
	n := 0
	for _, c := range gen {
		for j := 0; j < per; j++ {
			run(c, n)
			n++
		}
	}
	for _, d := range [][2]int{{10, 10}, {70, 3}, {3, 70}, {300, 2}, {2, 300}, {40, 40}, {600, 1}, {66, 66}} {
		for how := 0; how < 10; how++ {
			for j := 0; j < 6; j++ {
				run(bigEq(rnd, d[0], d[1], how), n)
				n++
			}
		}
	}
	reps := 6000
	if thorough {
		reps = 60000
	}
	for i := 0; i < reps; i++ {
		run(randEq(rnd), n)
		n++
	}
	t.huge(func() { hugeEq(t, rand.New(rand.NewSource(seed*997))) })
}

// randEq: mostly equal or nearly equal contents
func randEq(r *rand.Rand) eqCase {
	lim := 5
	if r.Intn(10) == 0 {
		lim = 14
	}
	a := eqObj{K: "x", R: 1 + r.Intn(lim), C: 1 + r.Intn(lim)}
	if r.Intn(3) == 0 {
		a.C = 1
	}
	if r.Intn(120) == 0 { // large
		a.R, a.C = 16+r.Intn(30), 1+r.Intn(40)
		if r.Intn(3) == 0 {
			a.R, a.C = 60+r.Intn(240), 1
		} else if r.Intn(2) == 0 {
			a.R, a.C = a.C, a.R
		}
	}
	n := a.R * a.C
	den := 1 + r.Intn(4)
	a.D = make([]int, n)
	for i := range a.D {
		if r.Intn(4) < den {
			a.D[i] = r.Intn(7)
		}
	}
	b := a
	b.D = append([]int(nil), a.D...)
	switch r.Intn(7) {
	case 0:
	case 1: // one cell differs
		b.D[r.Intn(n)] = r.Intn(7)
	case 2: // two cells swapped
		i, j := r.Intn(n), r.Intn(n)
		b.D[i], b.D[j] = b.D[j], b.D[i]
	case 3: // an element moves to another place
		i, j := r.Intn(n), r.Intn(n)
		if b.D[j] == 0 {
			b.D[j], b.D[i] = b.D[i], 0
		}
	case 4: // another shape with the same cells
		b.R, b.C = a.C, a.R
	case 5: // an element missing
		b.D[r.Intn(n)] = 0
	case 6:
		if r.Intn(2) == 0 { // a row or column more
			b.R++
			b.D = append(b.D, make([]int, b.C)...)
		} else {
			b = eqObj{K: "x", R: a.R, C: a.C + 1}
			for i := 0; i < a.R; i++ {
				b.D = append(append(b.D, a.D[i*a.C:(i+1)*a.C]...), 0)
			}
		}
	}
	if r.Intn(2) == 0 {
		a, b = b, a
	}
	return eqCase{a, b}
}

// bigEq: a large matrix and a slightly different one
func bigEq(r *rand.Rand, rows, cols, how int) eqCase {
	a := eqObj{K: "x", R: rows, C: cols, D: make([]int, rows*cols)}
	n, den := len(a.D), 1+r.Intn(4)
	for i := range a.D {
		if r.Intn(4) < den {
			a.D[i] = r.Intn(7)
		}
	}
	i := r.Intn(n)
	a.D[i] = 1 + r.Intn(6)
	b := a
	b.D = append([]int(nil), a.D...)
	swap := func(x, y int) {
		b.D[x], b.D[y] = b.D[y], b.D[x]
		if a.D[x] == a.D[y] { // make it tell
			b.D[x] = 1 + (b.D[x]+1)%6
		}
	}
	switch how {
	case 0, 1:
	case 2: // within the row
		swap(i, i/cols*cols+r.Intn(cols))
	case 3: // within the column
		swap(i, i%cols+cols*r.Intn(rows))
	case 4:
		swap(i, r.Intn(n))
	case 5: // the last or the first cell
		i = (n - 1) * r.Intn(2)
		b.D[i] = (b.D[i] + 1) % 7
	case 6:
		b.D[i] = 0
	case 7: // another value
		b.D[i] = 1 + b.D[i]%6
	case 8: // the next cell
		swap(i, (i+1)%n)
	case 9:
		swap(i, (i+cols)%n)
	}
	if r.Intn(2) == 0 {
		a, b = b, a
	}
	return eqCase{a, b}
}

// hugeEq compares objects with very many rows or columns; where the windows differ in size the objects do
func hugeEq(t *tracer, rnd *rand.Rand) {
	rounds := 130
	if thorough {
		rounds = 13 * 80
	}
	for i := 0; i < rounds; i++ {
		n := []int{66000, 70000, 1<<17 + 3}[rnd.Intn(3)]
		if i%5 == 4 {
			n = []int{1<<31 + 77, 1<<33 + 5}[rnd.Intn(2)]
		}
		w := window(rnd, n, 4+rnd.Intn(3))
		c := []int{1, 2, 3}[rnd.Intn(3)]
		if n > 1<<20 {
			c = 1
		}
		a := eqObj{K: "x", R: len(w), C: c, D: make([]int, len(w)*c)}
		den := 1 + rnd.Intn(4)
		for j := range a.D {
			if rnd.Intn(4) < den {
				a.D[j] = rnd.Intn(7)
			}
		}
		b := a
		b.D = append([]int(nil), a.D...)
		x, y := rnd.Intn(len(b.D)), rnd.Intn(len(b.D))
		more := n
		switch i % 7 {
		case 0:
			b.D[x] = rnd.Intn(7)
		case 1:
			b.D[x], b.D[y] = b.D[y], b.D[x]
		case 2:
			if b.D[y] == 0 {
				b.D[y], b.D[x] = b.D[x], 0
			}
		case 3:
			b.D[x] = 0
		case 4: // sizes that agree in their low bits
			more = n + 1<<[]uint{0, 8, 16}[rnd.Intn(3)]
			if n > 1<<20 {
				more = n + 1<<32
			}
			b.R++
			b.D = append(b.D, make([]int, c)...)
		case 5: // an element where the low bits of its index are the same
			from, to := collide(rnd, w)
			x, y = from*c+rnd.Intn(c), 0
			y = to*c + x%c
			if v := b.D[x]; v == 0 {
				a.D[x] = 1 + rnd.Intn(6)
				b.D[x] = a.D[x]
			}
			a.D[y], b.D[y], b.D[x] = 0, b.D[x], 0
		}
		wide := append(append([]int(nil), w...), more-1)
		turn := c > 1 && rnd.Intn(2) == 0 // many columns instead of many rows
		ty := numTypes[rnd.Intn(13)]
		kinds := []string{"csr", "csc", "csr", "csc", "sv"}
		if n > 1<<20 {
			kinds = []string{"sv"}
		} else if rnd.Intn(4) == 0 {
			kinds = []string{"csr", "csc", "dn", "dm", "sv"}
		}
		if turn {
			flip := func(o eqObj) eqObj {
				d := make([]int, len(o.D))
				for j, v := range o.D {
					d[j%o.C*o.R+j/o.C] = v
				}
				return eqObj{K: o.K, R: o.C, C: o.R, D: d}
			}
			a, b = flip(a), flip(b)
		}
		axis := func(k int) ([]int, int) {
			switch k {
			case len(w):
				return w, n
			case len(wide):
				return wide, more
			}
			return all(k), k
		}
		if rnd.Intn(2) == 0 {
			a, b = b, a
		}
		hugeEqType(t, rnd, ty, eqCase{a, b}, axis, kinds)
	}
}

func hugeEqType(t *tracer, rnd *rand.Rand, ty string, c eqCase, axis func(int) ([]int, int), kinds []string) {
	switch ty {
	case "int":
		hugeEqRun[int](t, rnd, c, axis, kinds)
	case "int8":
		hugeEqRun[int8](t, rnd, c, axis, kinds)
	case "int16":
		hugeEqRun[int16](t, rnd, c, axis, kinds)
	case "int32":
		hugeEqRun[int32](t, rnd, c, axis, kinds)
	case "int64":
		hugeEqRun[int64](t, rnd, c, axis, kinds)
	case "uint":
		hugeEqRun[uint](t, rnd, c, axis, kinds)
	case "uint8":
		hugeEqRun[uint8](t, rnd, c, axis, kinds)
	case "uint16":
		hugeEqRun[uint16](t, rnd, c, axis, kinds)
	case "uint32":
		hugeEqRun[uint32](t, rnd, c, axis, kinds)
	case "uint64":
		hugeEqRun[uint64](t, rnd, c, axis, kinds)
	case "uintptr":
		hugeEqRun[uintptr](t, rnd, c, axis, kinds)
	case "float32":
		hugeEqRun[float32](t, rnd, c, axis, kinds)
	case "float64":
		hugeEqRun[float64](t, rnd, c, axis, kinds)
	}
}

func hugeEqRun[T constraints.Number](t *tracer, rnd *rand.Rand, c eqCase, axis func(int) ([]int, int), kinds []string) {
	eqRun[T](t, rnd, c, func(k string, r, c int) g.MatrixLogical[T] {
		ri, br := axis(r)
		ci, bc := axis(c)
		return newGap[T](mkLogicalNum[T](k, br, bc), ri, ci, br, bc)
	}, kinds)
}

func eqNum[T constraints.Number](t *tracer, rnd *rand.Rand, c eqCase) {
	eqRun[T](t, rnd, c, mkLogicalNum[T], []string{"dm", "dn", "csr", "csc", "dv", "dvn", "sv"})
}

// bare is the object behind a window, or a missing one
func bare[T constraints.Type](m g.MatrixLogical[T]) g.MatrixLogical[T] {
	if m == nil {
		return nil
	}
	return unwrap(m)
}

func eqRun[T constraints.Type](t *tracer, rnd *rand.Rand, c eqCase, mk func(string, int, int) g.MatrixLogical[T], kinds []string) {
	pal := palette[T]()
	if rnd.Intn(3) == 0 {
		pal = closeValues[T]()
	}
	// comparing with NaN is not equality of values
	var vals []T
	for _, v := range pal {
		if v == v {
			vals = append(vals, v)
		}
	}
	make1 := func(o eqObj) (g.MatrixLogical[T], string) {
		if o.K == "nil" {
			return nil, "nil"
		}
		k := kinds[rnd.Intn(len(kinds))]
		for isVecKind(k) && o.C != 1 {
			k = kinds[rnd.Intn(len(kinds))]
		}
		m := mk(k, o.R, o.C)
		n := o.R * o.C
		how, negative := rnd.Intn(4), rnd.Intn(4) == 0 // zeros may be written as -0
		order := rnd.Perm(n)
		if how == 0 {
			for i := range order {
				order[i] = i
			}
		}
		for _, i := range order {
			if how == 2 {
				m.Set(i/o.C, i%o.C, vals[1])
			}
			if o.D[i] != 0 || how == 2 || negative || (how == 3 && rnd.Intn(2) == 0) {
				x := vals[o.D[i]%len(vals)]
				if g.IsZero(x) && negative {
					x = negZero[T]()
				}
				m.Set(i/o.C, i%o.C, x)
			}
		}
		return m, k
	}
	if !t.begin() {
		return
	}
	rnd = rand.New(rand.NewSource(seed*1000003 + int64(t.n)))
	a, ak := make1(c.A)
	b, bk := make1(c.B)
	if a != nil && rnd.Intn(25) == 0 {
		b, bk = a, ak
	}
	if t.n%4 == 1 && a != nil && b != nil && a.Rows() < 1000 && b.Rows() < 1000 {
		warm(t.n/4, func() { g.Equal[T](pastCtx(t.n/4), a, b); b.Equal(a) }, a, b)
	}
	tok := func(v T) any { return tokOf(vals, v) }
	proj := func(k string, m g.MatrixLogical[T]) M {
		if m == nil {
			return M{K: "nil", D: []any{}}
		}
		return project[T](k, m, tok)
	}
	ev := J{"op": "Equal", "t": typeName[T](), "a": proj(ak, a), "b": proj(bk, b)}
	a, b = bare(a), bare(b)
	same := a == b
	if t.n%5 == 2 {
		if users := 1 + t.n/5%3; users&1 > 0 {
			a = ownLogical[T](a, contains(sparseKinds, ak), t.n/15)
		} else {
			b = ownLogical[T](b, contains(sparseKinds, bk), t.n/15)
		}
		if t.n/5%3 == 2 && !same {
			b = ownLogical[T](b, contains(sparseKinds, bk), t.n/30)
		}
	}
	ctx := anyCtx(t.n)
	eq, ne := []bool{}, []bool{}
	ev["out"] = guard(func() {
		eq = append(eq, g.Equal[T](ctx, a, b), g.Equal[T](ctx, b, a))
		ne = append(ne, g.NotEqual[T](ctx, a, b), g.NotEqual[T](ctx, b, a))
		if a != nil {
			eq, ne = append(eq, a.Equal(b)), append(ne, a.NotEqual(b))
		}
		if b != nil {
			eq, ne = append(eq, b.Equal(a)), append(ne, b.NotEqual(a))
		}
	})
	ev["eq"], ev["ne"] = eq, ne
	t.emit(ev)
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
}
