package main

// C04: objects made from one another, written afterwards; after every call every object is read.

import (
	"math/rand"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/sort"
)

type heapStep struct {
	Op  string `json:"op"`
	How string `json:"how"`
	O   int    `json:"o"`
}
type heapProg struct {
	Steps []heapStep `json:"steps"`

	rows, cols int // of a large first object, written everywhere at once
	full       bool
}

type hobj[T constraints.Type] struct {
	kind string
	m    g.MatrixLogical[T]
	arr  []T
}

var heapHows = []string{"copyl", "copy", "row", "col", "arr", "t", "neg", "scal", "gscal", "add", "sub", "mul", "tocsr", "tocsc", "strassen",
	"rref", "sortr", "sortc", "redvec", "bfs", "mxcopy", "mxrow", "mxcol", "mxarr", "mxt", "mxneg", "mxscal", "mxadd", "mxsub", "mxmul",
	"iAdd", "iSub", "iMxM", "iEwAdd", "iEwMul", "iApply", "iNeg", "iTrans", "iMxV", "iVxM", "iEwAddV", "iEwMulV", "reads"}

var heapKinds = []string{"dn", "csr", "csc", "dvn", "sv", "dm", "dv"}

func heapDriver(t *tracer) {
	var gen []heapProg
	readGen(&gen)
	per := 2
	if thorough {
		per = 21
	}
	n := int(seed) * 7
	run := func(p heapProg, n int) {
		k := heapKinds[n%7]
		if k == "dm" || k == "dv" {
			if n%2 == 0 {
				heapRun[bool](t, p, k, mkLogicalBool, kindOfBool, func(i int) bool { return i != 0 }, nil)
				return
			}
		}
		switch (n / 7) % 5 {
		case 0:
			heapNum[float64](t, p, k)
		case 1:
			heapNum[int](t, p, k)
		case 2:
			heapNum[int32](t, p, k)
		case 3:
			heapNum[uint8](t, p, k)
		default:
			heapNum[float32](t, p, k)
		}
	}
	for _, p := range gen {
		for j := 0; j < per; j++ {
			run(p, n)
			n++
		}
	}
	// large objects
	shapes := [][2]int{{34, 34}, {300, 2}, {2, 300}, {600, 1}}
	for i, how := range heapHows {
		for j := 0; j < 7; j++ {
			if !thorough && (i+j+int(seed))%3 > 0 && !contains([]string{"copyl", "copy", "row", "col", "arr", "t", "mxcopy", "mxrow", "mxcol", "mxarr", "mxt"}, how) {
				continue
			}
			for x := 0; x < 3; x++ {
				sh := shapes[x]
				if k := heapKinds[j]; isVecKind(k) {
					sh = shapes[3]
				}
				if x != (i+j)%3 && !contains([]string{"row", "col", "copyl", "arr"}, how) {
					continue
				}
				for first := 1; first <= 2; first++ {
					n += 7
					run(heapProg{rows: sh[0], cols: sh[1], full: (first+x)%2 == 0, Steps: []heapStep{{"derive", how, 1}, {"write", "", first}, {"write", "", 3 - first}}}, n-n%7+j)
				}
			}
		}
	}
	rnd := rand.New(rand.NewSource(seed))
	reps := 700
	if thorough {
		reps = 7000
	}
	for i := 0; i < reps; i++ {
		p := heapProg{Steps: []heapStep{{Op: "new"}}}
		for j := 0; j < 12; j++ {
			if rnd.Intn(3) == 0 {
				p.Steps = append(p.Steps, heapStep{"write", "", rnd.Intn(1 << 20)})
			} else {
				p.Steps = append(p.Steps, heapStep{"derive", heapHows[rnd.Intn(len(heapHows))], rnd.Intn(1 << 20)})
			}
		}
		run(p, rnd.Intn(1<<20))
	}
}

func heapNum[T constraints.Number](t *tracer, p heapProg, kind string) {
	heapRun[T](t, p, kind, mkLogicalNum[T], kindOf[T], func(i int) T { return T(i) }, numDerive[T])
}

type heapState[T constraints.Type] struct {
	rnd  *rand.Rand
	objs []*hobj[T]
	w    int // object the current call writes (1-based), 0 none

	everywhere bool // writes reach every cell
}

func heapRun[T constraints.Type](t *tracer, p heapProg, kind string, mk func(string, int, int) g.MatrixLogical[T], kindOf func(any) string, val func(int) T,
	derive func(*heapState[T], *hobj[T], string, func(any) string) *hobj[T]) {
	if !t.begin() {
		return
	}
	st := &heapState[T]{rnd: rand.New(rand.NewSource(seed*99991 + int64(t.n)))}
	rnd := st.rnd
	var vals []T
	for _, v := range palette[T]() {
		if v == v {
			vals = append(vals, v)
		}
	}
	tok := func(v T) any {
		if f, ok := f64(v); ok {
			return enc(f, 0, 1)
		}
		if bitsOf(typeName[T]()) > 16 {
			x := raw(v)
			return int(x % 1000000007)
		}
		return enc(v, 0, 1)
	}
	n := 2 + rnd.Intn(2)
	if rnd.Intn(60) == 0 { // large
		n = 8 + rnd.Intn(12)
		if isVecKind(kind) {
			n = 20 + rnd.Intn(60)
		}
	}
	c := n
	if isVecKind(kind) {
		c = 1
	}
	if p.rows > 0 {
		n, c, st.everywhere = p.rows, p.cols, true
	}
	o := &hobj[T]{kind: kind, m: mk(kind, n, c)}
	full := p.full || p.rows == 0 && rnd.Intn(3) == 0
	for i := 0; i < n*c; i++ {
		if full || rnd.Intn(3) > 0 {
			o.m.Set(i/c, i%c, val(1+rnd.Intn(3)))
		}
	}
	st.objs = []*hobj[T]{o}
	evs := []J{}
	observe := func(ev J, made int) bool {
		ev["made"], ev["w"] = made, st.w
		heap := []M{}
		ev["look"] = guard(func() {
			for _, o := range st.objs {
				if o.m == nil {
					d := []any{}
					for _, v := range o.arr {
						d = append(d, tok(v))
					}
					heap = append(heap, M{K: "arr", R: len(o.arr), C: 1, D: d})
				} else {
					heap = append(heap, project[T](o.kind, o.m, tok))
				}
			}
		})
		ev["heap"] = heap
		evs = append(evs, ev)
		return ev["look"] == "ok"
	}
	fresh := 3
	ok := observe(J{"op": "new", "out": "ok"}, 1)
	for _, s := range p.Steps {
		if s.Op == "new" || !ok {
			continue
		}
		oi := s.O - 1
		if oi >= len(st.objs) || oi < 0 {
			oi = s.O % len(st.objs)
		}
		o := st.objs[oi]
		st.w = 0
		made := 0
		ev := J{"op": s.Op, "how": s.How, "o": oi + 1}
		ev["out"] = guard(func() {
			if s.Op == "write" {
				st.w = oi + 1
				fresh++
				writeObj(st, o, val(fresh%100))
				return
			}
			var d *hobj[T]
			if o.m == nil {
				return
			}
			j := rnd.Intn(max(1, o.m.Rows()))
			jc := rnd.Intn(max(1, o.m.Columns()))
			switch s.How {
			case "row":
				d = &hobj[T]{m: o.m.RowsAt(j)}
			case "col":
				d = &hobj[T]{m: o.m.ColumnsAt(jc)}
			case "arr":
				d = &hobj[T]{arr: o.m.RowsAtToArray(j)}
			case "t":
				d = &hobj[T]{m: o.m.Transpose()}
			case "reads":
				for it := o.m.Enumerate(); it.HasNext(); {
					it.Next()
				}
				o.m.Values()
				x := st.objs[rnd.Intn(len(st.objs))]
				if x.m != nil {
					o.m.Equal(x.m)
					o.m.NotEqual(x.m)
				}
			default:
				if derive != nil {
					d = derive(st, o, s.How, kindOf)
				} else {
					d = &hobj[T]{m: o.m.CopyLogical()}
				}
			}
			if d != nil {
				if d.m != nil && d.kind == "" {
					d.kind = kindOf(d.m)
				}
				st.objs = append(st.objs, d)
				made = 1
			}
		})
		ok = observe(ev, made)
		if ev["out"] == "hang" {
			t.emit(J{"k": kind, "t": typeName[T](), "ev": evs})
			t.close()
			exit(0)
		}
	}
	t.emit(J{"k": kind, "t": typeName[T](), "ev": evs})
}

func writeObj[T constraints.Type](st *heapState[T], o *hobj[T], v T) {
	rnd := st.rnd
	if o.m == nil {
		for i := range o.arr {
			o.arr[i] = v
		}
		return
	}
	r, c := o.m.Rows(), o.m.Columns()
	if r == 0 || c == 0 {
		return
	}
	var z T
	how := rnd.Intn(7)
	if st.everywhere {
		how = []int{3, 4, 6, 6}[rnd.Intn(4)]
	}
	switch how {
	case 0: // one cell
		o.m.Set(rnd.Intn(r), rnd.Intn(c), v)
	case 1:
		o.m.Update(rnd.Intn(r), rnd.Intn(c), func(T) T { return v })
	case 2:
		o.m.Set(rnd.Intn(r), rnd.Intn(c), z)
	case 3:
		o.m.Clear()
	case 4:
		if mp, ok := o.m.(mapper[T]); ok {
			for it := mp.Map(); it.HasNext(); {
				it.Map(func(int, int, T) T { return v })
			}
		} else {
			o.m.Set(rnd.Intn(r), rnd.Intn(c), v)
		}
	case 5:
		if rs, ok := o.m.(interface{ ReSize(int) int }); ok {
			k := 1 + rnd.Intn(r+2)
			rs.ReSize(k)
			for i := 0; i < k; i++ {
				o.m.Set(i, 0, v)
			}
			return
		}
		fallthrough
	default: // every cell
		for i := 0; i < r*c; i++ {
			o.m.Set(i/c, i%c, v)
		}
	}
}

func numDerive[T constraints.Number](st *heapState[T], o *hobj[T], how string, kindOf func(any) string) *hobj[T] {
	rnd := st.rnd
	m, isM := o.m.(g.Matrix[T])
	if !isM {
		return &hobj[T]{m: o.m.CopyLogical()}
	}
	ctx := anyCtx(rnd.Intn(11))
	j, jc := rnd.Intn(max(1, m.Rows())), rnd.Intn(max(1, m.Columns()))
	same := func(r, c int) g.Matrix[T] { // another object of the shape
		var cand []g.Matrix[T]
		for _, x := range st.objs {
			if y, ok := x.m.(g.Matrix[T]); ok && y.Rows() == r && y.Columns() == c {
				cand = append(cand, y)
			}
		}
		if len(cand) == 0 {
			return nil
		}
		return cand[rnd.Intn(len(cand))]
	}
	res := func(x g.MatrixLogical[T]) *hobj[T] { return &hobj[T]{m: x} }
	mx := func() *g.MutexMatrix[T] { return g.NewMutexMatrix[T](m) }
	switch how {
	case "copy":
		return res(m.Copy())
	case "neg":
		return res(m.Negative())
	case "scal":
		return res(m.Scalar(T(rnd.Intn(3))))
	case "gscal":
		return res(g.Scalar[T](ctx, m, T(2)))
	case "add":
		return res(m.Add(same(m.Rows(), m.Columns())))
	case "sub":
		return res(m.Subtract(same(m.Rows(), m.Columns())))
	case "mul", "strassen", "mxmul":
		x := same(m.Columns(), m.Columns())
		if x == nil {
			x = same(m.Columns(), 1)
		}
		if x == nil {
			return res(m.Copy())
		}
		if how == "mul" {
			return res(m.Multiply(x))
		}
		if how == "mxmul" {
			return res(mx().Multiply(x))
		}
		return res(strassen.MultiplyCrossoverPoint[T](ctx, m, x, 1))
	case "tocsr":
		return res(g.TransposeToCSR[T](ctx, m))
	case "tocsc":
		return res(g.TransposeToCSC[T](ctx, m))
	case "rref":
		if isFloat(typeName[T]()) {
			return res(reduced.Reduced[T](m))
		}
		return res(m.Copy())
	case "sortr", "sortc":
		if x, ok := any(o.m).(g.MatrixLogical[int32]); ok {
			var y g.MatrixRune
			if how == "sortr" {
				y = sort.BubbleRow(ctx, x)
			} else {
				y = sort.BubbleColumns(ctx, x)
			}
			return res(y.(g.MatrixLogical[T]))
		}
		return res(m.CopyLogical())
	case "redvec":
		return res(g.ReduceMatrixToVector[T](ctx, m))
	case "bfs":
		if m.Rows() == m.Columns() && m.Rows() > 0 {
			lv := []g.Vector[T]{}
			r := breadthfirst.Search[T](ctx, m, rnd.Intn(m.Rows()), func(v g.Vector[T]) bool { lv = append(lv, v); return len(lv) > 2 })
			return res(r)
		}
		return res(m.Copy())
	case "mxcopy":
		return res(mx().Copy())
	case "mxrow":
		return res(mx().RowsAt(j))
	case "mxcol":
		return res(mx().ColumnsAt(jc))
	case "mxarr":
		return &hobj[T]{arr: mx().RowsAtToArray(j)}
	case "mxt":
		return res(mx().Transpose())
	case "mxneg":
		return res(mx().Negative())
	case "mxscal":
		return res(mx().Scalar(T(2)))
	case "mxadd":
		return res(mx().Add(same(m.Rows(), m.Columns())))
	case "mxsub":
		return res(mx().Subtract(same(m.Rows(), m.Columns())))
	case "copyl":
		return res(m.CopyLogical())
	}
	// into an output: an existing object or a new one
	r, c := m.Rows(), m.Columns()
	or, oc := r, c
	vec := false
	var x g.Matrix[T]
	switch how {
	case "iMxM":
		if x = same(c, c); x == nil {
			x = same(c, 1)
		}
		if x == nil {
			return nil
		}
		oc = x.Columns()
	case "iMxV", "iVxM":
		vec = true
		for _, y := range st.objs {
			if v, ok := y.m.(g.Vector[T]); ok && v.Rows() == c {
				x = v
			}
		}
		if x == nil {
			return nil
		}
		oc = 1
	case "iTrans":
		or, oc = c, r
	case "iEwAddV", "iEwMulV":
		vec = true
		if _, ok := m.(g.Vector[T]); !ok {
			return nil
		}
		for _, y := range st.objs {
			if v, ok := y.m.(g.Vector[T]); ok && v.Rows() == r {
				x = v
			}
		}
	default:
		x = same(r, c)
	}
	var out g.Matrix[T]
	made := (*hobj[T])(nil)
	for i, y := range st.objs {
		z, ok := y.m.(g.Matrix[T])
		if ok && z.Rows() == or && z.Columns() == oc && rnd.Intn(2) == 0 {
			if _, isV := z.(g.Vector[T]); vec && !isV {
				continue
			}
			out, st.w = z, i+1
		}
	}
	if out == nil {
		k := matKinds[rnd.Intn(3)]
		if oc == 1 && (vec || rnd.Intn(2) == 0) {
			k = vecKinds[rnd.Intn(2)]
		}
		out = mkNum[T](k, or, oc)
		made = &hobj[T]{kind: k, m: out}
	}
	var mask g.Mask
	if rnd.Intn(2) == 0 {
		if y := same(or, oc); y != nil && y != out {
			mask = y
		}
	}
	op := map[string]string{"iAdd": "Add", "iSub": "Subtract", "iMxM": "MxM", "iEwAdd": "EwAddM", "iEwMul": "EwMulM", "iApply": "Apply", "iNeg": "Negative",
		"iTrans": "Transpose", "iMxV": "MxV", "iVxM": "VxM", "iEwAddV": "EwAddV", "iEwMulV": "EwMulV"}[how]
	assert(op != "", "how %s", how)
	call[T](ctx, op, m, x, mask, out, "inc", 2)
	return made
}
