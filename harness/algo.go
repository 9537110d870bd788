package main

// C14-C17: graph and matrix algorithms on top of the library's operations

import (
	"context"
	"math"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"strconv"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
)

// ---- C14 ----

type graphCase struct {
	N int   `json:"n"`
	G []int `json:"g"`
	S int   `json:"s"`
}

func bfsDriver(t *tracer) {
	var gen []graphCase
	readGen(&gen)
	rnd := rand.New(rand.NewSource(seed))
	per := 2
	reps := 1500
	if thorough {
		per, reps = 12, 20000
	}
	n := int(seed)
	for _, c := range gen {
		for i := 0; i < per; i++ {
			n++
			bfsType(t, c, n, numTypes[(n/3)%13])
		}
	}
	for i := 0; i < reps; i++ {
		n++
		c := graphCase{N: 1 + rnd.Intn(6)}
		if i%5 == 0 {
			c.N = 5 + rnd.Intn(8)
		}
		if i%90 == 7 { // long or wide
			c.N = 15 + rnd.Intn(60)
		}
		if i%500 == 99 {
			c.N = 100 + rnd.Intn(60)
		}
		large := c.N > 14
		wt := func(k int) int { // path counts of large graphs have to stay small
			if large {
				return 1
			}
			return 1 + rnd.Intn(k)
		}
		c.S = rnd.Intn(c.N)
		c.G = make([]int, c.N*c.N)
		switch rnd.Intn(5) {
		case 0: // sparse
			for k := 0; k < 2*c.N; k++ {
				c.G[rnd.Intn(c.N*c.N)] = wt(3)
			}
		case 1: // layers
			w := 1 + rnd.Intn(3)
			if large && w > 1 {
				w = 1 + c.N/3
			}
			for to := 0; to < c.N; to++ {
				for from := 0; from < c.N; from++ {
					if to/w == from/w+1 && rnd.Intn(4) > 0 {
						c.G[to*c.N+from] = wt(2)
					}
					if from/w > to/w && rnd.Intn(5) == 0 {
						c.G[to*c.N+from] = 1
					}
				}
			}
		case 2: // a cycle or a path with chords
			p := rnd.Perm(c.N)
			for k := 0; k < c.N-rnd.Intn(2); k++ {
				c.G[p[(k+1)%c.N]*c.N+p[k]] = wt(2)
			}
			c.G[rnd.Intn(c.N*c.N)] = 1
		default:
			q := 1 + rnd.Intn(4)
			for k := range c.G {
				if rnd.Intn(5) < q {
					c.G[k] = wt(2)
				}
			}
		}
		ty := []string{"int", "int64", "float64", "uint64", "uint", "int32", "uint32", "uintptr"}[rnd.Intn(8)]
		bfsType(t, c, n, ty)
	}
	// as many levels as vertices
	long := []int{33, 65, 101, 129, 140, 200}
	if thorough {
		long = append(long, 64, 100, 128, 160, 257, 300)
	}
	for i, l := range long {
		n++
		c := graphCase{N: l, G: make([]int, l*l)}
		p := rnd.Perm(l)
		if i%3 == 0 {
			sort.Ints(p)
		}
		c.S = p[0]
		for k := 0; k+1 < l; k++ {
			c.G[p[k+1]*l+p[k]] = 1
		}
		bfsType(t, c, n, []string{"int", "int64", "float64", "uint8"}[i%4])
	}
}

func bfsType(t *tracer, c graphCase, n int, ty string) {
	switch ty {
	case "int":
		bfsRun[int](t, c, n)
	case "int8":
		bfsRun[int8](t, c, n)
	case "int16":
		bfsRun[int16](t, c, n)
	case "int32":
		bfsRun[int32](t, c, n)
	case "int64":
		bfsRun[int64](t, c, n)
	case "uint":
		bfsRun[uint](t, c, n)
	case "uint8":
		bfsRun[uint8](t, c, n)
	case "uint16":
		bfsRun[uint16](t, c, n)
	case "uint32":
		bfsRun[uint32](t, c, n)
	case "uint64":
		bfsRun[uint64](t, c, n)
	case "uintptr":
		bfsRun[uintptr](t, c, n)
	case "float32":
		bfsRun[float32](t, c, n)
	case "float64":
		bfsRun[float64](t, c, n)
	}
}

func bfsRun[T constraints.Number](t *tracer, c graphCase, n int) {
	if !t.begin() {
		return
	}
	half := isFloat(typeName[T]()) && n%2 == 0 && c.N <= 14 // weights are halves
	sc := 1
	val := func(i int) T { return T(i) }
	if half {
		sc = 2
		val = func(i int) T { return T(i) / T(2) }
	}
	kind := []string{"csr", "dn", "csc"}[n%3]
	if c.N == 1 && n%2 == 0 {
		kind = []string{"dvn", "sv"}[n%4/2]
	}
	m := build[T](kind, c.N, c.N, c.G, val, n)
	if n%7 == 2 {
		m = own[T](m, n/7)
	}
	if n%4 == 1 {
		k := 0
		warm[T](n/4, func() {
			breadthfirst.Search[T](pastCtx(n/4), m, (c.S+n/28)%c.N, func(g.Vector[T]) bool {
				if k++; n%28 == 1 && k > n/28%2 {
					panic("the caller's")
				}
				return k > c.N
			})
		}, m)
	}
	before := project[T](kind, m, func(v T) any { return enc(v, 0, sc) })
	rnd := rand.New(rand.NewSource(seed + int64(n)*31))
	style, at, vert := rnd.Intn(4), 1+rnd.Intn(c.N+1), rnd.Intn(c.N)
	levels, reps := []any{}, []any{}
	scale := 1
	lv := func(v g.Vector[T]) any {
		out := []any{}
		for i := 0; i < v.Length(); i++ {
			out = append(out, enc(v.AtVec(i), 0, scale))
		}
		return out
	}
	pred := func(v g.Vector[T]) bool {
		scale *= sc
		levels = append(levels, lv(v))
		yes := false
		var z T
		switch style {
		case 1:
			yes = len(levels) == at
		case 2:
			yes = v.AtVec(vert) != z
		case 3:
			yes = v.Values() == 0 || g.ReduceVectorToScalar[T](context.Background(), v, nil) == z
		}
		reps = append(reps, yes)
		if len(levels) > c.N+2 {
			panic("too many levels")
		}
		return yes
	}
	ctx := anyCtx(n)
	ev := J{"op": "BFS", "k": kind, "t": typeName[T](), "g": before, "s": c.S, "res": []any{}, "after": before}
	var r g.Vector[T]
	ev["out"] = guard(func() { r = breadthfirst.Search[T](ctx, m, c.S, pred) })
	ev["levels"], ev["rep"] = levels, reps
	if ev["out"] == "ok" {
		ev["res"] = lv(r)
		ev["after"] = project[T](kind, m, func(v T) any { return enc(v, 0, sc) })
	}
	t.emit(ev)
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
}

// ---- C15 ----

// jitterCtx disturbs the schedule whenever it is consulted
type jitterCtx struct {
	context.Context
	j *jitter
}

func (c *jitterCtx) Done() <-chan struct{} { c.j.point(); return c.Context.Done() }
func (c *jitterCtx) Err() error            { c.j.point(); return c.Context.Err() }

func strassenDriver(t *tracer) {
	var gen []numCase
	readGen(&gen)
	rnd := rand.New(rand.NewSource(seed))
	n := int(seed) * 13
	per := 3
	reps := 1200
	if thorough {
		per, reps = 20, 12000
	}
	for _, k := range gen {
		for i := 0; i < per; i++ {
			n++
			strassenType(t, k, n, rnd.Int63(), 1+n/2%3)
		}
	}
	for i := 0; i < reps; i++ {
		n++
		dim := func() int { return 1 + rnd.Intn(9) }
		k := numCase{SR: dim(), SC: dim(), MC: dim()}
		if i%2 == 0 { // square
			k.SR = []int{2, 4, 6, 8, 3, 5, 7, 9, 4, 8, 12, 16}[rnd.Intn(12)]
			k.SC, k.MC = k.SR, k.SR
		} else if i%7 == 1 {
			k.MC = 1
		}
		k.MR = k.SC
		lim := 1 + rnd.Intn(9)
		k.S, k.M = randVals(rnd, k.SR*k.SC, 1+rnd.Intn(4), lim), randVals(rnd, k.MR*k.MC, 1+rnd.Intn(4), lim)
		strassenType(t, k, n, rnd.Int63(), []int{1, 1, 2, 2, 3, 4, 5, 8, 64, 1000}[rnd.Intn(10)])
	}
	// the default crossover point
	sizes := [][3]int{{66, 66, 66}, {65, 65, 65}, {66, 65, 66}, {64, 64, 64}}
	if thorough {
		sizes = append(sizes, [3]int{132, 132, 132}, [3]int{128, 128, 128}, [3]int{68, 68, 67}, [3]int{130, 130, 130})
	}
	for _, d := range sizes {
		n++
		k := numCase{SR: d[0], SC: d[1], MR: d[1], MC: d[2], S: randVals(rnd, d[0]*d[1], 2, 3), M: randVals(rnd, d[1]*d[2], 2, 3)}
		if n%2 == 0 {
			strassenRun[int](t, k, n, 1, 0)
		} else {
			strassenRun[float64](t, k, n, 1, 0)
		}
	}
	// large products; these are compared through vectors
	large := [][2]int{{128, 0}, {128, 64}, {130, 32}, {132, 0}, {96, 16}, {160, 40}, {192, 33}, {256, 0}}
	if thorough {
		large = append(large, [][2]int{{512, 0}, {384, 0}, {260, 0}, {256, 16}, {300, 75}, {320, 0}, {256, 128}, {258, 64}, {144, 8}}...)
	}
	for _, d := range large {
		n++
		k := numCase{SR: d[0], SC: d[0], MR: d[0], MC: d[0], S: randVals(rnd, d[0]*d[0], 3, 3), M: randVals(rnd, d[0]*d[0], 3, 3)}
		if n%2 == 0 {
			strassenLarge[int](t, k, n, d[1])
		} else {
			strassenLarge[float64](t, k, n, d[1])
		}
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
}

// strassenLarge records the two operands, the product and a few vectors to compare it through
func strassenLarge[T constraints.Number](t *tracer, k numCase, n, cross int) {
	if !t.begin() {
		return
	}
	rnd := rand.New(rand.NewSource(seed*7 + int64(n)))
	val := func(i int) T { return T(int64(i)) }
	s := build[T]("dn", k.SR, k.SC, k.S, val, 0)
	m := build[T]("dn", k.MR, k.MC, k.M, val, 0)
	e := func(v T) any { return enc(v, 0, 1) }
	xs := [][]int{}
	for i := 0; i < 3; i++ {
		x := make([]int, k.MC)
		for j := range x {
			x[j] = rnd.Intn(61) - 30
		}
		xs = append(xs, x)
	}
	none := M{K: "none", D: []any{}}
	ev := J{"op": "StrassenLarge", "f": "mulx", "fresh": true, "t": typeName[T](), "ar": 0, "sc": 1, "cross": cross, "xs": xs,
		"s": project[T]("", s, e), "m": project[T]("", m, e), "new": none}
	setProcs(rnd.Intn(5))
	var r g.Matrix[T]
	ev["out"] = guard(func() {
		if cross == 0 {
			r = strassen.Multiply[T](anyCtx(t.n), s, m)
		} else {
			r = strassen.MultiplyCrossoverPoint[T](anyCtx(t.n), s, m, cross)
		}
	})
	if ev["out"] == "ok" {
		ev["out"] = guard(func() { ev["new"] = project[T]("", r, e) })
	}
	t.emit(ev)
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
}

func strassenType(t *tracer, k numCase, n int, sd int64, cross int) {
	switch (n / 5) % 9 {
	case 0:
		strassenRun[int](t, k, n, sd, cross)
	case 1:
		strassenRun[float64](t, k, n, sd, cross)
	case 2:
		strassenRun[int8](t, k, n, sd, cross)
	case 3:
		strassenRun[uint16](t, k, n, sd, cross)
	case 4:
		strassenRun[int32](t, k, n, sd, cross)
	case 5:
		strassenRun[uint64](t, k, n, sd, cross)
	case 6:
		strassenRun[float32](t, k, n, sd, cross)
	case 7:
		strassenRun[uint8](t, k, n, sd, cross)
	case 8:
		strassenRun[int64](t, k, n, sd, cross)
	}
}

func strassenRun[T constraints.Number](t *tracer, k numCase, n int, sd int64, cross int) {
	if !t.begin() {
		return
	}
	ty := typeName[T]()
	rnd := rand.New(rand.NewSource(sd))
	sc := 1
	ar := arFor(ty)
	if ar >= 100 && (n%3 > 0 || cross == 0) { // limbs only for some, they are slow
		ar = 0
		if isUnsigned(ty) {
			for _, d := range [][]int{k.S, k.M} {
				for i := range d {
					if d[i] < 0 {
						d[i] = -d[i]
					}
				}
			}
		}
	}
	val := func(i int) T { return T(int64(i)) }
	if ar >= 100 && n%2 == 0 {
		val = wideVal[T]
	}
	if isFloat(ty) {
		sc = 2
		val = func(i int) T { return T(i) / T(2) }
	}
	sk, mk := kindsFor(k.SR, k.SC, false), kindsFor(k.MR, k.MC, false)
	s := build[T](sk[rnd.Intn(len(sk))], k.SR, k.SC, k.S, val, rnd.Intn(5))
	m := build[T](mk[rnd.Intn(len(mk))], k.MR, k.MC, k.M, val, rnd.Intn(5))
	if n%7 == 2 {
		s = own[T](s, n/7)
	}
	if n/7%5 == 2 {
		m = own[T](m, n/35)
	}
	if k.SR == k.MR && k.SC == k.MC && rnd.Intn(8) == 0 {
		m = s
	}
	if n%4 == 1 && k.SR*k.SC*k.MC < 500 {
		warm[T](n/4, func() { strassen.MultiplyCrossoverPoint[T](pastCtx(n/4), s, m, max(1, cross)) }, s, m)
	}
	e := func(v T) any { return enc(v, ar, sc) }
	eo := func(v T) any { return enc(v, ar, sc*sc) }
	none := M{K: "none", D: []any{}}
	ev := J{"op": "Strassen", "f": "mul", "fresh": true, "t": ty, "ar": ar, "sc": sc, "uf": "", "alpha": 0, "cross": cross,
		"s": project[T]("", s, e), "m": project[T]("", m, e), "mask": projMask(nilMask), "old": none, "new": none}
	setProcs(rnd.Intn(5))
	ctx := &jitterCtx{context.Background(), newJitter(rnd.Int63(), []int{0, 0, 1, 4}[rnd.Intn(4)])}
	if k.SR*k.SC*k.MC > 500 {
		ctx.j = nil
	}
	var r g.Matrix[T]
	ev["out"] = guard(func() {
		if cross == 0 {
			r = strassen.Multiply[T](ctx, s, m)
		} else {
			r = strassen.MultiplyCrossoverPoint[T](ctx, s, m, cross)
		}
	})
	if ev["out"] == "ok" {
		ev["out"] = guard(func() { ev["new"] = project[T]("", r, eo) })
	}
	t.emit(ev)
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
}

// ---- C16 ----

type rrefCase struct {
	R int   `json:"r"`
	C int   `json:"c"`
	A []int `json:"a"`
}

func rrefDriver(t *tracer) {
	var gen []rrefCase
	readGen(&gen)
	rnd := rand.New(rand.NewSource(seed))
	reps := 2500
	if thorough {
		reps = 40000
	}
	n := int(seed)
	one := func(r, c int, num []int, sh int) {
		n++
		e := rowScales(r, sh, n, n%3 == 0)
		nearly := make([]int, r) // and with numbers close to one
		if n%4 == 1 {
			most := 38
			if n%3 == 0 {
				most = 10
			}
			for i := range nearly {
				nearly[i] = (rnd.Intn(most-6) + 7) * (rnd.Intn(3) - 1)
			}
		}
		if !exactRref(r, c, num, e, nearly) {
			return
		}
		if n%3 == 0 {
			rrefRun[float32](t, r, c, num, e, nearly, n)
		} else {
			rrefRun[float64](t, r, c, num, e, nearly, n)
		}
	}
	for _, k := range gen {
		one(k.R, k.C, k.A, 0)
		if thorough {
			for i := 0; i < 4; i++ {
				one(k.R, k.C, k.A, i)
			}
		}
	}
	for i := 0; i < reps; i++ {
		r, c := rnd.Intn(6), rnd.Intn(7)
		if i%9 > 0 && r*c == 0 {
			r, c = 1+r, 1+c
		}
		large := i%40 == 5
		if large {
			r, c = 6+rnd.Intn(12), 6+rnd.Intn(14)
		}
		wide := i%40 == 25
		if wide { // leading entries far beyond the diagonal, or many rows below the last one
			r, c = 1+rnd.Intn(3), 6+rnd.Intn(30)
			if rnd.Intn(3) == 0 {
				r, c = c, r
			}
		}
		d := make([]int, r*c)
		if (large || wide || i%3 > 0) && r*c > 0 { // mix the rows of a reduced matrix
			p := 0
			for a := 0; a < r; a++ {
				p += rnd.Intn(3) * rnd.Intn(2)
				if wide {
					p += rnd.Intn(1 + (c-p)/(2*(r-a)))
				}
				if p >= c {
					break
				}
				d[a*c+p] = []int{1, 1, 2, 4, -1, -2, 8}[rnd.Intn(7)]
				for x := p + 1; x < c; x++ {
					d[a*c+x] = rnd.Intn(5) - 2
					if large && rnd.Intn(4) > 0 {
						d[a*c+x] = 0
					}
				}
				p++
			}
			for k := 0; k < r; k++ {
				a, b := rnd.Intn(r), rnd.Intn(r)
				switch rnd.Intn(3) {
				case 0:
					for x := 0; x < c; x++ {
						d[a*c+x], d[b*c+x] = d[b*c+x], d[a*c+x]
					}
				default:
					if a != b {
						f := []int{1, -1, 2, -2}[rnd.Intn(4)]
						for x := 0; x < c; x++ {
							d[a*c+x] += f * d[b*c+x]
						}
					}
				}
			}
		} else {
			for k := range d {
				if rnd.Intn(4) > 0 {
					d[k] = rnd.Intn(7) - 3
				}
			}
		}
		if i%2 == 0 { // rows times numbers whose reciprocals are inexact
			for a := 0; a < r; a++ {
				f := []int{1, 1, 49, 98, 103, 107, 41, 47, 55, 3, 5, 7, -49, 61}[rnd.Intn(14)]
				for x := 0; x < c; x++ {
					d[a*c+x] *= f
				}
			}
		}
		one(r, c, d, rnd.Intn(6))
	}
	// many columns, or many rows
	long := 60
	if thorough {
		long = 600
	}
	for i := 0; i < long; i++ {
		r, c := 2+rnd.Intn(4), []int{33, 63, 64, 65, 66, 100, 128, 129, 140}[rnd.Intn(9)]
		if i%3 == 2 {
			r, c = c, r
		}
		d := make([]int, r*c)
		p := c
		for a := 0; a < r; a++ {
			for x := 0; x < c; x++ {
				if rnd.Intn(3) == 0 {
					d[a*c+x] = rnd.Intn(3) - 1
				}
			}
		}
		if r < c && i%2 == 0 { // leading entries anywhere
			for a := r - 1; a >= 0; a-- {
				p -= 1 + rnd.Intn(p/(a+1))
				for x := 0; x < p; x++ {
					d[a*c+x] = 0
				}
				d[a*c+p] = 1
			}
			for k := 0; k < r; k++ {
				if a, b := rnd.Intn(r), rnd.Intn(r); a != b {
					for x := 0; x < c; x++ {
						d[a*c+x] += d[b*c+x]
					}
				}
			}
		}
		one(r, c, d, rnd.Intn(6))
	}
}

// rowScales: the powers of two the rows are multiplied with
func rowScales(r, sh, n int, single bool) []int {
	e := make([]int, r)
	small, large := -400, 380
	if single {
		small, large = -56, 48
	}
	for i := range e {
		switch sh {
		case 1:
			e[i] = -2
		case 2:
			e[i] = 4
		case 3:
			e[i] = small
		case 4:
			e[i] = large
		case 5: // every row its own
			e[i] = []int{0, small, 12, -31, large, 2}[(i*5+n)%6]
		}
	}
	return e
}

// nearOne is 2^k+1 or 2^k-1, to be divided by 2^k
func nearOne(k int) (int64, int) {
	switch {
	case k > 0:
		return 1<<k + 1, k
	case k < 0:
		return 1<<-k - 1, -k
	}
	return 1, 0
}

// exactRref: Gauss-Jordan elimination, with the first or with the largest pivot and with
// quotients or reciprocals, only meets numbers exactly representable with a few bits
func exactRref(r, c int, num []int, scale, near []int) bool {
	for _, largest := range []bool{false, true} {
		m := make([]*big.Rat, r*c)
		for i := range m {
			m[i] = big.NewRat(int64(num[i]), 1)
		}
		ok := true
		e, nearly := append([]int{}, scale...), append([]int{}, near...)
		abs := func(i int, v *big.Rat) *big.Rat { // |v| as row i is scaled
			f, k := nearOne(nearly[i])
			p := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(f), uint(e[i]+512-k)))
			return p.Mul(p, v).Abs(p)
		}
		chk := func(x *big.Rat) *big.Rat {
			d := x.Denom()
			if x.Num().BitLen() > 12 || d.BitLen() > 7 || new(big.Int).And(d, new(big.Int).Sub(d, big.NewInt(1))).Sign() != 0 {
				ok = false
			}
			return x
		}
		row := 0
		for col := 0; col < c && row < r && ok; col++ {
			p := -1
			for i := row; i < r; i++ {
				v := m[i*c+col]
				if v.Sign() != 0 && (p < 0 || largest && abs(i, v).Cmp(abs(p, m[p*c+col])) > 0) {
					p = i
				}
			}
			if p < 0 {
				continue
			}
			for x := 0; x < c; x++ {
				m[p*c+x], m[row*c+x] = m[row*c+x], m[p*c+x]
			}
			e[p], e[row] = e[row], e[p]
			nearly[p], nearly[row] = nearly[row], nearly[p]
			f := new(big.Rat).Set(m[row*c+col])
			chk(f)
			for x := 0; x < c; x++ {
				m[row*c+x] = chk(new(big.Rat).Quo(m[row*c+x], f))
			}
			for i := 0; i < r; i++ {
				if i == row {
					continue
				}
				f := new(big.Rat).Set(m[i*c+col])
				for x := 0; x < c; x++ {
					pr := chk(new(big.Rat).Mul(f, m[row*c+x]))
					m[i*c+x] = chk(new(big.Rat).Sub(m[i*c+x], pr))
				}
			}
			row++
		}
		if !ok {
			return false
		}
	}
	return true
}

func rrefRun[T float32 | float64](t *tracer, r, c int, num, e, nearly []int, n int) {
	if !t.begin() {
		return
	}
	// the rows are multiplied by powers of two and numbers close to one, which changes nothing in the result
	pos := make([]int, len(num))
	for k, v := range num {
		if v != 0 {
			pos[k] = k + 1
		}
	}
	val := func(k int) T {
		if k == 0 {
			return 0
		}
		f, x := nearOne(nearly[(k-1)/c])
		return T(math.Ldexp(float64(int64(num[k-1])*f), e[(k-1)/c]-x))
	}
	ks := kindsFor(r, c, false)
	kind := ks[(n/2)%len(ks)]
	m := build[T](kind, r, c, pos, val, n)
	if n%7 == 2 {
		m = own[T](m, n/7)
	}
	if n%4 == 1 {
		warm[T](n/4, func() { reduced.Reduced[T](m) }, m)
	}
	ev := J{"op": "Reduced", "k": kind, "t": typeName[T](), "scale": 64, "base": J{"r": r, "c": c, "d": append([]int{}, num...)}}
	obs := func(x g.MatrixLogical[T], f func(T) any) J {
		p := project[T]("", x, f)
		return J{"r": p.R, "c": p.C, "d": p.D}
	}
	exact := func(v T) any { return strconv.FormatFloat(float64(v), 'g', -1, 64) }
	ev["a"] = obs(m, exact)
	ev["res"] = J{"r": 0, "c": 0, "d": []any{}}
	var x g.Matrix[T]
	ev["out"] = guard(func() { x = reduced.Reduced[T](m) })
	ev["a2"] = obs(m, exact)
	if ev["out"] == "ok" {
		ev["out"] = guard(func() { ev["res"] = obs(x, func(v T) any { return enc(v, 0, 64) }) })
	}
	t.emit(ev)
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
}

// ---- C17 ----

func symmetryDriver(t *tracer) {
	var gen []rrefCase
	readGen(&gen)
	rnd := rand.New(rand.NewSource(seed))
	per, reps := 3, 3000
	if thorough {
		per, reps = 26, 40000
	}
	n := int(seed)
	for _, k := range gen {
		for i := 0; i < per; i++ {
			n++
			symType(t, k.R, k.C, k.A, n, false)
		}
	}
	for i := 0; i < reps; i++ {
		n++
		r := rnd.Intn(7)
		c := r
		if rnd.Intn(8) == 0 {
			c = rnd.Intn(7)
		}
		if i%100 == 7 { // large
			r = 15 + rnd.Intn(60)
			c = r
			if rnd.Intn(8) == 0 {
				c++
			}
		}
		d := randVals(rnd, r*c, 1+rnd.Intn(4), []int{1, 2, 5}[rnd.Intn(3)])
		style := rnd.Intn(3)
		for x := 0; x < r && r == c; x++ {
			for y := 0; y < x; y++ {
				switch style {
				case 1:
					d[x*c+y] = d[y*c+x]
				case 2:
					d[x*c+y] = -d[y*c+x]
				}
			}
			if style == 2 {
				d[x*c+x] = []int{0, 0, 0, 2}[rnd.Intn(4)] // 2 is the smallest number in the wide table: its own negative
			}
		}
		if style > 0 && r*c > 0 && (rnd.Intn(3) == 0 || r > 14 && rnd.Intn(2) == 0) { // spoil one cell
			d[rnd.Intn(r*c)] += rnd.Intn(3) - 1
		}
		symType(t, r, c, d, n, rnd.Intn(3) == 0)
	}
	// one cell of a large matrix, in every format and place
	for _, r := range []int{50, 66, 130} {
		for i := 0; i < 24; i++ {
			n++
			d := randVals(rnd, r*r, 1+rnd.Intn(3), 5)
			skew := 1
			if i%2 == 0 {
				skew = -1
			}
			for x := 0; x < r; x++ {
				for y := 0; y < x; y++ {
					d[x*r+y] = skew * d[y*r+x]
				}
				if skew < 0 {
					d[x*r+x] = 0
				}
			}
			x, y := rnd.Intn(r), rnd.Intn(r)
			switch i / 2 % 6 {
			case 0:
				x, y = 0, r-1
			case 1:
				x, y = r-1, 0
			case 2:
				x, y = r-1, r-2
			case 3:
				x, y = 0, 1
			case 4:
				x, y = r-1, r-1
			}
			if i > 1 {
				d[x*r+y] += 1 + rnd.Intn(2)
			}
			if i == r%24 {
				d = append(d, d[:r]...)
				symType(t, r+1, r, d, n, false)
				continue
			}
			symType(t, r, r, d, n*13+[]int{0, 6, 12, 1}[i%4]+i/4*13*13, false)
		}
	}
	t.huge(func() { hugeSymmetry(t, rand.New(rand.NewSource(seed*983))) })
}

// hugeSymmetry asks about matrices with very many rows and columns, non-zero only where some of these meet
func hugeSymmetry(t *tracer, rnd *rand.Rand) {
	rounds := 52
	if thorough {
		rounds = 13 * 20
	}
	for i := 0; i < rounds; i++ {
		n := []int{66000, 70000, 1<<17 + 3}[rnd.Intn(3)]
		w := window(rnd, n, 4+rnd.Intn(3))
		r := len(w)
		d := randVals(rnd, r*r, 1+rnd.Intn(4), 4)
		skew := 1 - i%2*2
		for x := 0; x < r; x++ {
			for y := 0; y < x; y++ {
				d[x*r+y] = skew * d[y*r+x]
			}
			if skew < 0 {
				d[x*r+x] = 0
			}
		}
		switch x, y := rnd.Intn(r*r), rnd.Intn(r*r); i / 2 % 7 {
		case 3, 4: // an element where the low bits of an index are the same
			from, to := collide(rnd, w)
			at := rnd.Intn(r)
			for j := 0; j < 2*r && (d[at*r+from] == 0 || d[at*r+to] != 0); j++ {
				if at = rnd.Intn(r); j > r {
					from, to = to, from
				}
			}
			if d[at*r+from] == 0 && at != from {
				d[at*r+from], d[from*r+at] = 1, skew
			}
			if d[at*r+to] == 0 {
				d[at*r+to], d[at*r+from] = d[at*r+from], 0
			}
		case 0:
			d[x]++
		case 1:
			d[x], d[y] = d[y], d[x]
		case 2:
			d[x] = 0
		}
		symWin, symSize = w, n
		symType(t, r, r, d, i, false)
		symWin = nil
	}
}

var (
	symWin  []int
	symSize int
)

func symType(t *tracer, r, c int, d []int, n int, wide bool) {
	switch n % 13 {
	case 0:
		symRun[int](t, r, c, d, n, wide)
	case 1:
		symRun[int8](t, r, c, d, n, wide)
	case 2:
		symRun[int16](t, r, c, d, n, wide)
	case 3:
		symRun[int32](t, r, c, d, n, wide)
	case 4:
		symRun[int64](t, r, c, d, n, wide)
	case 5:
		symRun[uint](t, r, c, d, n, wide)
	case 6:
		symRun[uint8](t, r, c, d, n, wide)
	case 7:
		symRun[uint16](t, r, c, d, n, wide)
	case 8:
		symRun[uint32](t, r, c, d, n, wide)
	case 9:
		symRun[uint64](t, r, c, d, n, wide)
	case 10:
		symRun[uintptr](t, r, c, d, n, wide)
	case 11:
		symRun[float32](t, r, c, d, n, wide)
	case 12:
		symRun[float64](t, r, c, d, n, wide)
	}
}

func symRun[T constraints.Number](t *tracer, r, c int, d []int, n int, wide bool) {
	if !t.begin() {
		return
	}
	ty := typeName[T]()
	ar, sc := arFor(ty), 1
	val := func(i int) T { return T(int64(i)) }
	switch {
	case isFloat(ty) && n/7%3 == 0: // with infinities
		ar, val = 1, specVal[T](4)
	case isFloat(ty):
		sc = 2
		val = func(i int) T { return T(i) / T(2) }
	case wide:
		val = func(i int) T {
			if i == 2 {
				return T(int64(-1) << uint(bitsOf(ty)-1))
			}
			return T(int64(i) * 0x0123456789abcdef)
		}
	}
	ks := kindsFor(r, c, false)
	kind := ks[(n/13)%len(ks)]
	var m g.Matrix[T]
	if symWin == nil {
		m = build[T](kind, r, c, d, val, n)
		if n%7 == 2 {
			m = own[T](m, n/7)
		}
	} else {
		kind = []string{"csr", "csc"}[n/13%2]
		m = mkNum[T](kind, symSize, symSize)
		for i, v := range d {
			if v != 0 {
				m.Set(symWin[i/c], symWin[i%c], val(v))
			}
		}
	}
	project := func(kind string, m g.Matrix[T], e func(T) any) M {
		if symWin != nil {
			return project[T](kind, newGap[T](m, symWin, symWin, symSize, symSize), e)
		}
		return project[T](kind, m, e)
	}
	if n%4 == 1 && symWin == nil {
		warm[T](n/4, func() { symmetric.Symmetric[T](m); skewsymmetric.SkewSymmetric[T](m) }, m)
	}
	e := func(v T) any { return enc(v, ar, sc) }
	ev := J{"op": "Symmetry", "k": kind, "t": ty, "ar": ar, "s": project(kind, m, e), "sym": false, "skew": false}
	ev["out"] = guard(func() {
		ev["sym"] = symmetric.Symmetric[T](m)
		ev["skew"] = skewsymmetric.SkewSymmetric[T](m)
	})
	ev["s2"] = project(kind, m, e)
	t.emit(ev)
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
}
