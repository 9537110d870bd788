package main

import (
	"context"
	"math"
	"math/rand"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
)

// C19: calls at and beyond the limits of indices and shapes

type accCase struct {
	Kind string `json:"kind"`
	K    string `json:"k"`
	Op   string `json:"op"`
	R    int    `json:"r"`
	C    int    `json:"c"`
	I    int    `json:"i"`
	J    int    `json:"j"`
	S    []int  `json:"s"`
	M    []int  `json:"m"`
	Mask []int  `json:"mask"`
	Out  []int  `json:"out"`
}

func accessDriver(t *tracer) {
	var gen []accCase
	readGen(&gen)
	reps := 1
	if thorough {
		reps = 4
	}
	for rep := 0; rep < reps; rep++ {
		for n, c := range gen {
			n += rep * 5
			switch c.Kind {
			case "ix":
				if (c.K == "dm" || c.K == "dv") && n%5 == 0 {
					ixRun[bool](t, c, func(k string, r, c int) g.MatrixLogical[bool] { return mkLogicalBool(k, r, c) }, true)
					continue
				}
				switch n % 6 {
				case 0:
					ixNum[float64](t, c)
				case 1:
					ixNum[int](t, c)
				case 2:
					ixNum[uint8](t, c)
				case 3:
					ixNum[float32](t, c)
				case 4:
					ixNum[int16](t, c)
				default:
					ixNum[uintptr](t, c)
				}
			case "fit":
				fitRun(t, c, n)
			case "bfs":
				if n%2 == 0 {
					bfsFit[int](t, c, n)
				} else {
					bfsFit[float32](t, c, n)
				}
			case "red":
				redFit[float64](t, c, n)
			}
		}
	}
}

type accessor[T constraints.Type] interface {
	Rows() int
	Columns() int
	At(r, c int) T
	Set(r, c int, v T)
	Update(r, c int, f func(T) T)
	ColumnsAt(c int) g.VectorLogial[T]
	RowsAt(r int) g.VectorLogial[T]
	RowsAtToArray(r int) []T
}

func ixNum[T constraints.Number](t *tracer, c accCase) {
	if c.K == "mx" {
		ixRun[T](t, c, func(k string, r, cc int) accessor[T] {
			return g.NewMutexMatrix[T](mkNum[T](matKinds[(r+cc+len(c.Op))%3], r, cc))
		}, T(5))
		return
	}
	ixRun[T](t, c, func(k string, r, c int) accessor[T] { return mkLogicalNum[T](k, r, c) }, T(5))
}

func ixRun[T constraints.Type, A accessor[T]](t *tracer, c accCase, mk func(string, int, int) A, val T) {
	if !t.begin() {
		return
	}
	rnd := rand.New(rand.NewSource(seed*100003 + int64(t.n)))
	m := mk(c.K, c.R, c.C)
	full := val
	if rnd.Intn(3) == 0 { // calls that store zero
		var z T
		val = z
	}
	fill := rnd.Intn(5) // 0: empty, 1: full
	for i := 0; i < c.R*c.C; i++ {
		if fill == 1 || fill > 1 && rnd.Intn(2) == 0 {
			m.Set(i/c.C, i%c.C, full)
		}
	}
	proj := func() M {
		p := M{K: c.K, R: m.Rows(), C: m.Columns(), D: []any{}}
		var z T
		for i := 0; i < p.R*p.C; i++ {
			if m.At(i/p.C, i%p.C) != z {
				p.D = append(p.D, 1)
			} else {
				p.D = append(p.D, 0)
			}
		}
		return p
	}
	i, j := extreme(c.I, t.n), extreme(c.J, t.n)
	calls := 0
	ev := J{"kind": "ix", "op": c.Op, "t": typeName[T](), "k": c.K, "i": c.I, "j": c.J, "before": proj()}
	f := func(v T) T { calls++; return val }
	ev["out"] = guard(func() {
		switch c.Op {
		case "At":
			m.At(i, j)
		case "Set":
			m.Set(i, j, val)
		case "Update":
			m.Update(i, j, f)
		case "ColumnsAt":
			m.ColumnsAt(j)
		case "RowsAt":
			m.RowsAt(i)
		case "RowsAtToArray":
			m.RowsAtToArray(i)
		case "Element":
			any(m).(g.Mask).Element(i, j)
		case "AtVec":
			any(m).(g.VectorLogial[T]).AtVec(i)
		case "SetVec":
			any(m).(g.VectorLogial[T]).SetVec(i, val)
		case "SetRP":
			any(m).(interface{ SetReturnPointer(int, int, T) (int, int) }).SetReturnPointer(i, j, val)
		case "UpdRP":
			any(m).(interface {
				UpdateReturnPointer(int, int, func(T) T) (int, int)
			}).UpdateReturnPointer(i, j, f)
		default:
			panic("harness: " + c.Op)
		}
	})
	ev["calls"] = calls
	ev["after"] = M{K: "none", D: []any{}}
	guard(func() { ev["after"] = proj() })
	t.emit(ev)
}

// extreme replaces the two stand-ins for very large indices
func extreme(x, n int) int {
	switch x {
	case 1000000007:
		return []int{math.MaxInt, math.MaxInt32, 1 << 40, 1 << 32, 1 << 62, 1 << 16, 1 << 8, math.MaxInt - 1, 1<<33 + 1, 1<<61 + 1, 1<<16 + 1}[n%11]
	case -1000000007:
		return []int{math.MinInt, math.MinInt32, -(1 << 32), -(1 << 62), -(1 << 16), -(1 << 8), math.MinInt + 1}[n%7]
	}
	return x
}

func bfsFit[T constraints.Number](t *tracer, c accCase, n int) {
	if !t.begin() {
		return
	}
	rnd := rand.New(rand.NewSource(seed*17 + int64(n)))
	k := kindsFor(c.S[0], c.S[1], false)
	kind := k[rnd.Intn(len(k))]
	d := randVals(rnd, c.S[0]*c.S[1], rnd.Intn(5), 1)
	for i := range d {
		if d[i] < 0 {
			d[i] = 1
		}
	}
	m := build[T](kind, c.S[0], c.S[1], d, func(i int) T { return T(i) }, n)
	e := func(v T) any { return enc(v, 0, 1) }
	ev := J{"kind": "bfs", "op": c.Op, "t": typeName[T](), "i": c.I, "before": project[T](kind, m, e)}
	levels := 0
	ev["out"] = guard(func() {
		breadthfirst.Search[T](context.Background(), m, extreme(c.I, n), func(g.Vector[T]) bool { levels++; return levels > 3 })
	})
	ev["after"] = project[T](kind, m, e)
	t.emit(ev)
}

func fitRun(t *tracer, c accCase, n int) {
	rnd := rand.New(rand.NewSource(seed*7 + int64(n)))
	k := numCase{Op: c.Op, SR: c.S[0], SC: c.S[1], OR: c.Out[0], OC: c.Out[1], Uf: "inc", Alpha: 2}
	dens := func() int { return []int{3, 0, 4, 1, 3}[rnd.Intn(5)] }
	k.S = randVals(rnd, k.SR*k.SC, dens(), 3)
	if len(c.M) > 0 {
		k.MR, k.MC = c.M[0], c.M[1]
		k.M = randVals(rnd, k.MR*k.MC, dens(), 3)
	}
	if isFresh(c.Op) {
		k.OR, k.OC = 0, 0
	}
	k.Old = randVals(rnd, k.OR*k.OC, dens(), 3)
	ty := numTypes[n%13]
	cb := comboFor(k, rnd.Intn(1<<30), ty)
	cb.how, cb.frame = rnd.Intn(125), true
	if len(c.Mask) > 0 {
		cb.maskR, cb.maskC = c.Mask[0], c.Mask[1]
		if c.Mask[1] != 1 && isVecKind(cb.maskK) {
			cb.maskK = "csr"
		}
		if n%4 == 0 {
			cb.maskK = "empty"
		}
		k.Mask = maskRand(rnd, c.Mask[0]*c.Mask[1], 1+rnd.Intn(3))
	}
	curKind = "fit"
	runCaseT(t, k, cb)
	curKind = ""
}

func redFit[T constraints.Number](t *tracer, c accCase, n int) {
	if !t.begin() {
		return
	}
	rnd := rand.New(rand.NewSource(seed*13 + int64(n)))
	k := kindsFor(c.S[0], c.S[1], false)
	kind := k[rnd.Intn(len(k))]
	m := build[T](kind, c.S[0], c.S[1], randVals(rnd, c.S[0]*c.S[1], rnd.Intn(5), 3), valTable[T](false), 0)
	mask := nilMask
	if len(c.Mask) > 0 {
		mk := []string{"csr", "dn", "user", "csc", "mutex", "empty"}[n%6]
		mask = makeMask(mk, "int", c.Mask[0], c.Mask[1], maskRand(rnd, c.Mask[0]*c.Mask[1], 1))
	}
	e := func(v T) any { return enc(v, 0, 2) }
	ev := J{"kind": "red", "op": c.Op, "t": typeName[T](), "s": project[T](kind, m, e), "mask": projMask(mask)}
	ctx := anyCtx(n)
	ev["out"] = guard(func() {
		switch {
		case c.Op == "ReduceVector":
			g.ReduceMatrixToVectorWithMonoID[T](ctx, m, g.DefaultMonoIDAddition[T](), mask.mask)
		case n%2 == 0:
			g.ReduceMatrixToScalar[T](ctx, m, mask.mask)
		default:
			g.ReduceMatrixToScalarWithMonoID[T](ctx, m, g.DefaultMonoIDMaximum[T](), mask.mask)
		}
	})
	ev["s2"] = project[T](kind, m, e)
	t.emit(ev)
}
