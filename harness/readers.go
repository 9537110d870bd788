package main

// C13: unsynchronised readers of the same objects.  Built with the race detector,
// which ends the process at the first race.

import (
	"context"
	"math/rand"
	"sync"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	"github.com/rossmerr/graphblas/sort"
)

type readCase struct {
	K string `json:"k"`
	A string `json:"a"`
	B string `json:"b"`
}

// shared is what the readers have in common: a, b of one shape, x of the transposed shape, a vector and a mask
type shared[T constraints.Type] struct {
	a, b, x g.MatrixLogical[T]
	mask    *obsMask
}

func (s *shared[T]) obs(e func(T) any) any {
	return []any{project[T]("", s.a, e), project[T]("", s.b, e), project[T]("", s.x, e), s.mask.proj()}
}

func readersDriver(t *tracer) {
	var gen []readCase
	readGen(&gen)
	n := int(seed)
	per := 1
	if thorough {
		per = 5
	}
	// each operation against itself in every element type, before anything else uses the type
	for _, k := range gen {
		if k.A != k.B {
			continue
		}
		if k.K == "dm" || k.K == "dv" {
			readBool(t, k, 1)
		}
		readNum[int](t, k, 1)
		readNum[int8](t, k, 2)
		readNum[int16](t, k, 3)
		readNum[int32](t, k, 4)
		readNum[int64](t, k, 5)
		readNum[uint](t, k, 6)
		readNum[uint8](t, k, 7)
		readNum[uint16](t, k, 8)
		readNum[uint32](t, k, 9)
		readNum[uint64](t, k, 10)
		readNum[uintptr](t, k, 11)
		readNum[float32](t, k, 12)
		readNum[float64](t, k, 13)
	}
	for _, k := range gen {
		for i := 0; i < per; i++ {
			n++
			if k.K == "dm" || k.K == "dv" {
				if n%2 == 0 {
					readBool(t, k, n)
				} else {
					readNum[int32](t, k, n)
				}
				continue
			}
			switch n % 4 {
			case 0:
				readNum[int](t, k, n)
			case 1:
				readNum[float64](t, k, n)
			case 2:
				readNum[int32](t, k, n)
			default:
				readNum[uint8](t, k, n)
			}
		}
	}
}

func readBool(t *tracer, k readCase, n int) {
	readRun[bool](t, k, n, mkLogicalBool, func(i int) bool { return i%2 == 1 }, func(v bool) any { return enc(v, 0, 1) }, nil)
}

func readNum[T constraints.Number](t *tracer, k readCase, n int) {
	readRun[T](t, k, n, mkLogicalNum[T], func(i int) T { return T(i) }, func(v T) any { return enc(v, 0, 1) }, numRead[T])
}

func readRun[T constraints.Type](t *tracer, k readCase, n int, mk func(string, int, int) g.MatrixLogical[T], val func(int) T, e func(T) any,
	num func(op string, s *shared[T], e func(T) any) (any, bool)) {
	if !t.begin() {
		return
	}
	make := func() *shared[T] {
		rnd := rand.New(rand.NewSource(int64(n)*7919 + seed))
		kinds := []string{"dm", "dn", "csr", "csc"}
		r, c := 3, 3
		if n%5 == 0 {
			r, c = 8, 8
		}
		if n%50 == 7 {
			r, c = 24, 24
		}
		if n%1000 == 57 {
			r, c = 66, 66
		}
		if isVecKind(k.K) {
			kinds, c = []string{"dv", "dvn", "sv"}, 1
		}
		if num == nil {
			kinds = []string{k.K}
		} else if k.K != "dm" && k.K != "dv" {
			kinds = kinds[1:]
		}
		o := func(kind string, r, c int) g.MatrixLogical[T] {
			m := mk(kind, r, c)
			for _, i := range rnd.Perm(r * c) {
				if rnd.Intn(3) > 0 {
					m.Set(i/c, i%c, val(1+rnd.Intn(3)))
				}
			}
			return m
		}
		s := &shared[T]{a: o(k.K, r, c), b: o(kinds[rnd.Intn(len(kinds))], r, c)}
		xk := []string{"dn", "csr", "csc"}[rnd.Intn(3)]
		if num == nil {
			xk = "dm"
		}
		s.x = o(xk, r, r)
		s.mask = makeMask([]string{"dn", "csr", "csc"}[rnd.Intn(3)], "int8", r, c, maskRand(rnd, r*c, 1))
		return s
	}
	read := func(op string, s *shared[T]) (res any) {
		if num != nil {
			if v, ok := num(op, s, e); ok {
				return v
			}
		}
		return logRead[T](op, s, e)
	}
	ops := []string{k.A, k.B}
	threads := 2 + n%2
	if threads == 3 {
		ops = append(ops, k.A)
	}
	times := 2
	if thorough {
		times = 4
	}
	before := make().obs(e)
	s := make()
	got := [][]any{}
	for range ops {
		got = append(got, []any{})
	}
	out := guard(func() {
		var wg sync.WaitGroup
		res := [3][]any{}
		for i, op := range ops {
			i, op := i, op
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < times; j++ {
					var v any = "panic"
					inline(func() { v = read(op, s) })
					res[i] = append(res[i], v)
				}
			}()
		}
		wg.Wait()
		for i := range got {
			got[i] = res[i]
		}
	})
	// the answers expected come second: whatever is set up on first use is set up by concurrent readers
	alone := [][]any{}
	for _, op := range ops {
		var l []any
		for j := 0; j < times; j++ {
			s := make()
			var v any = "panic"
			inline(func() { v = read(op, s) })
			l = append(l, v)
		}
		alone = append(alone, l)
	}
	ev := J{"op": "read", "a": k.A, "b": k.B, "k": k.K, "t": typeName[T](), "out": out, "alone": alone, "got": got, "before": before, "after": before}
	if out == "ok" {
		ev["after"] = s.obs(e)
	}
	t.emit(ev)
	if out == "hang" {
		t.close()
		exit(0)
	}
}

func enumRes[T constraints.Type](it g.Enumerate[T], cols, n int, e func(T) any) any {
	out := map[int]any{}
	for k := 0; it.HasNext() && k < 4*n+4; k++ {
		r, c, v := it.Next()
		out[r*cols+c] = e(v)
	}
	res := []any{}
	for i := 0; i < n; i++ {
		if v, ok := out[i]; ok {
			res = append(res, v)
		} else {
			res = append(res, "none")
		}
	}
	return res
}

func logRead[T constraints.Type](op string, s *shared[T], e func(T) any) any {
	m := func(x g.MatrixLogical[T]) any { return project[T]("", x, e) }
	a, b := s.a, s.b
	switch op {
	case "At":
		return m(a)
	case "Size":
		return []any{a.Size(), a.Rows(), a.Columns()}
	case "Values":
		return []any{a.Values()}
	case "RowsAt":
		return []any{m(a.RowsAt(0)), m(a.RowsAt(2))}
	case "ColumnsAt":
		return []any{m(a.ColumnsAt(0)), m(a.ColumnsAt(a.Columns() - 1))}
	case "RowsAtToArray":
		out := []any{}
		for _, v := range a.RowsAtToArray(1) {
			out = append(out, e(v))
		}
		return out
	case "CopyLogical":
		return m(a.CopyLogical())
	case "Enumerate":
		return enumRes[T](a.Enumerate(), a.Columns(), a.Rows()*a.Columns(), e)
	case ".Transpose":
		return m(a.Transpose())
	case "Equal":
		return []any{a.Equal(b), b.Equal(a), a.Equal(a.CopyLogical())}
	case "NotEqual":
		return []any{a.NotEqual(b), g.NotEqual[T](context.Background(), b, a)}
	case "AtVec":
		v := a.(g.VectorLogial[T])
		out := []any{v.Length()}
		for i := 0; i < v.Length(); i++ {
			out = append(out, e(v.AtVec(i)))
		}
		return out
	}
	panic("harness: read " + op)
}

func numRead[T constraints.Number](op string, s *shared[T], e func(T) any) (any, bool) {
	ctx := anyCtx(len(op) + s.a.Rows() + s.a.Columns())
	m := func(x g.MatrixLogical[T]) (any, bool) { return project[T]("", x, e), true }
	if x, ok := any(s.a).(g.MatrixLogical[int32]); ok { // runes
		y := any(s.b).(g.MatrixLogical[int32])
		z := any(s.x).(g.MatrixLogical[int32])
		em := func(x g.MatrixLogical[int32]) (any, bool) {
			return project[int32]("", x, func(v int32) any { return int(v) }), true
		}
		switch op {
		case "Compare":
			return []any{g.Compare(ctx, x, y), g.Compare(ctx, y, x)}, true
		case "Less":
			return []any{g.Less(ctx, x, y), g.Greater(ctx, x, y), g.String(ctx, x)}, true
		case "BubbleRow":
			if isVecKind(kindOf[T](s.a)) {
				return em(sort.BubbleRow(ctx, z))
			}
			return em(sort.BubbleRow(ctx, x))
		case "BubbleColumns":
			return em(sort.BubbleColumns(ctx, z))
		}
	}
	switch op {
	case "Compare", "Less", "BubbleRow", "BubbleColumns":
		return []any{}, true
	case "ReduceMatrixToScalar":
		return []any{e(g.ReduceMatrixToScalar[T](ctx, s.a, s.mask.mask)), e(g.ReduceMatrixToScalar[T](ctx, s.a, nil))}, true
	case "ReduceVectorToScalar":
		return []any{e(g.ReduceVectorToScalar[T](ctx, s.a.(g.VectorLogial[T]), s.mask.mask))}, true
	}
	a, ok := s.a.(g.Matrix[T])
	if !ok {
		return nil, false
	}
	b := s.b.(g.Matrix[T])
	x := s.x.(g.Matrix[T])
	r, c := a.Rows(), a.Columns()
	vec := c == 1
	into := func(op string, p, q g.Matrix[T], r, c int, mask g.Mask) (any, bool) {
		var o g.Matrix[T] = g.NewDenseMatrixN[T](r, c)
		if vec && op != "MxM" && op != "Transpose" {
			o = g.NewDenseVectorN[T](r)
		}
		call[T](ctx, op, p, q, mask, o, "inc", T(2))
		return m(o)
	}
	switch op {
	case "Element":
		out := []any{}
		for i := 0; i < r*c; i++ {
			out = append(out, a.Element(i/c, i%c))
		}
		return out, true
	case "Copy":
		return m(a.Copy())
	case ".Scalar":
		return m(a.Scalar(T(2)))
	case "Scalar":
		return m(g.Scalar[T](ctx, a, T(2)))
	case ".Negative":
		return m(a.Negative())
	case ".Add":
		return m(a.Add(b))
	case ".Subtract":
		return m(a.Subtract(b))
	case ".Multiply":
		return m(x.Multiply(a))
	case "ToCSR":
		return m(g.TransposeToCSR[T](ctx, a))
	case "ToCSC":
		return m(g.TransposeToCSC[T](ctx, a))
	case "Add", "Subtract", "EwAddM", "EwMulM", "EwAddV", "EwMulV":
		return into(op, a, b, r, c, s.mask.mask)
	case "AddSelf":
		return into("Add", a, a, r, c, a)
	case "Mask": // the object is the mask
		return into("Add", b, b, r, c, a)
	case "Apply", "Negative":
		return into(op, a, nil, r, c, s.mask.mask)
	case "Transpose":
		return into(op, a, nil, c, r, nil)
	case "MxM": // the object on either side
		if vec {
			return into(op, x, a, r, c, s.mask.mask)
		}
		return into(op, a, x, r, c, s.mask.mask)
	case "MxM2":
		return into("MxM", x, a, r, c, s.mask.mask)
	case "MxV", "VxM":
		o := g.NewDenseVectorN[T](r)
		call[T](ctx, op, x, a, s.mask.mask, o, "", 0)
		return m(o)
	case "ReduceMatrixToVector":
		return m(g.ReduceMatrixToVector[T](ctx, a))
	case "Strassen":
		if vec {
			return m(strassen.MultiplyCrossoverPoint[T](ctx, x, a, 1))
		}
		return m(strassen.MultiplyCrossoverPoint[T](ctx, a, x, 2))
	case "Reduced":
		return m(reduced.Reduced[T](a))
	case "Symmetric":
		return []any{symmetric.Symmetric[T](a), skewsymmetric.SkewSymmetric[T](a)}, true
	case "BFS":
		lv := []any{}
		f := breadthfirst.Search[T](ctx, a, 1, func(v g.Vector[T]) bool {
			lv = append(lv, project[T]("", v, e))
			return false
		})
		lv = append(lv, project[T]("", f, e))
		return lv, true
	}
	return nil, false
}
