package main

// C11: every operation under cancellation at every point at which it can notice,
// and under contexts that are never cancelled

import (
	"context"
	"errors"
	"math/rand"
	"runtime"
	"sync"
	"time"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
)

// pointCtx counts the points at which an operation consults its context or
// touches something of the caller's, and is cancelled at the k-th of them
type pointCtx struct {
	mu    sync.Mutex
	n     int
	at    int // 0: never, -1: before the call
	fired bool
	after int // accesses to the caller's objects after the cancellation
	wrote int // those of them that write
	ch    chan struct{}
	err   error // why it ended
}

var (
	errs    = []error{context.Canceled, context.DeadlineExceeded, errors.New("the caller's own reason")}
	pointNo int
)

func newPointCtx(at int) *pointCtx {
	pointNo++
	p := &pointCtx{at: at, ch: make(chan struct{}), err: errs[pointNo/3%3]}
	if at < 0 {
		p.fired = true
		close(p.ch)
	}
	return p
}

func (p *pointCtx) point(access bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.n++
	if p.fired && access {
		p.after++
	}
	if p.n == p.at && !p.fired {
		p.fired = true
		close(p.ch)
	}
}
func (p *pointCtx) Done() <-chan struct{} { p.point(false); return p.ch }
func (p *pointCtx) Err() error {
	p.point(false)
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.fired {
		return p.err
	}
	return nil
}
func (p *pointCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (p *pointCtx) Value(any) any               { return nil }
func (p *pointCtx) enter(op string) func() {
	p.point(true)
	if op == "Set" || op == "Update" || op == "MapStep" || op == "Clear" {
		p.mu.Lock()
		if p.fired {
			p.wrote++
		}
		p.mu.Unlock()
	}
	return func() {}
}

func (p *pointCtx) state() (bool, int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.fired, p.after
}

type pointMask struct {
	g.Mask
	p *pointCtx
}

// a cell that is not to be written costs nothing that has to be cut short
func (m *pointMask) Element(r, c int) bool {
	x := m.Mask.Element(r, c)
	m.p.point(!x)
	return x
}

// returning operations have no output object to judge
var retOps = []string{"Scalar", "ToCSR", "ToCSC", "Equal", "NotEqual", "Compare", "Less", "Greater", "String", "RedS", "RedSid", "RedV", "RedVid", "BFS", "Strassen", "SortR", "SortC"}

type cancelRun struct {
	at    int
	async time.Duration // cancelled by another goroutine after this time
	lib   int           // 1, 2: through a library context of that mode
}

type goodCtx struct {
	name string
	mk   func() (context.Context, func())
}

type ctxKey struct{}

var goodCtxs = []goodCtx{
	{"todo", func() (context.Context, func()) { return context.TODO(), func() {} }},
	{"cancelable", func() (context.Context, func()) {
		return context.WithCancel(context.Background())
	}},
	{"deadline", func() (context.Context, func()) {
		return context.WithTimeout(context.Background(), time.Hour)
	}},
	{"value", func() (context.Context, func()) {
		return context.WithValue(context.Background(), ctxKey{}, 1), func() {}
	}},
	{"blocking", func() (context.Context, func()) { return g.NewContext(context.Background(), g.Blocking), func() {} }},
	{"nonblocking", func() (context.Context, func()) {
		c, f := context.WithCancel(context.Background())
		return g.NewContext(c, g.NonBlocking), f
	}},
}

func cancelDriver(t *tracer) {
	var gen []numCase
	readGen(&gen)
	rnd := rand.New(rand.NewSource(seed))
	n := 0
	ops := []string{"Add", "Subtract", "MxM", "MxV", "VxM", "EwAddM", "EwAddV", "EwMulM", "EwMulV", "Apply", "Negative", "Transpose"}
	for i, k := range gen {
		n++
		cb := comboFor(k, n*29+int(seed), numTypes[i%13])
		cb.how = n
		cancelCaseT(t, k, cb, 0)
	}
	reps := 3
	if thorough {
		reps = 30
	}
	for _, op := range append(append([]string{}, ops...), retOps...) {
		for i := 0; i < reps*4; i++ {
			k := cancelShape(rnd, op, 1+rnd.Intn(4))
			if !contains(retOps, op) && i%3 == 0 {
				k.Alias = []string{"s", "m", "sm", "all"}[rnd.Intn(4)]
				k = aliasFix(rnd, k)
			}
			cb := comboFor(k, rnd.Intn(1<<30), numTypes[rnd.Intn(13)])
			cb.how = rnd.Intn(125)
			cancelCaseT(t, k, cb, 0)
		}
		// larger: promptness, and cancellation by another goroutine
		for i := 0; i < reps; i++ {
			k := cancelShape(rnd, op, 16)
			cb := comboFor(k, rnd.Intn(1<<30), numTypes[rnd.Intn(13)])
			cb.how = rnd.Intn(125)
			cancelCaseT(t, k, cb, 12)
		}
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
}

// aliasFix makes the shapes square where the alias needs it
func aliasFix(r *rand.Rand, k numCase) numCase {
	if isUnary(k.Op) && k.Alias != "s" {
		k.Alias = "s"
	}
	if k.Op == "MxV" || k.Op == "VxM" {
		k.Alias = "m"
	}
	d := 1 + r.Intn(3)
	switch family[k.Op] {
	case "mul":
		k.SR, k.SC, k.MR, k.MC, k.OR, k.OC = d, d, d, d, d, d
		if k.Op != "MxM" {
			k.MC, k.OC = 1, 1
		}
	case "trans":
		k.SR, k.SC, k.OR, k.OC = d, d, d, d
	default:
		return k
	}
	k.S, k.M, k.Old = randVals(r, k.SR*k.SC, 3, 3), randVals(r, k.MR*k.MC, 3, 3), randVals(r, k.OR*k.OC, 3, 3)
	if len(k.Mask) > 0 {
		k.Mask = maskRand(r, k.OR*k.OC, 1)
	}
	return k
}

func cancelShape(r *rand.Rand, op string, d int) numCase {
	base := op
	if contains(retOps, op) && family[op] == "" {
		base = "Apply"
	}
	k := randCase(r, base, 3)
	k.Op = op
	dim := func() int {
		if d >= 16 {
			return d
		}
		return 1 + r.Intn(3)
	}
	k.SR, k.SC = dim(), dim()
	if op == "BFS" || op == "Strassen" {
		k.SC = k.SR
	}
	k.OR, k.OC = k.SR, k.SC
	switch {
	case op == "Strassen":
		k.MR, k.MC = k.SC, k.SC
	case needsVectors(op):
		if d >= 16 {
			k.SR = 256
		}
		k.SC, k.OR, k.OC = 1, k.SR, 1
		k.MR, k.MC = k.SR, 1
	case family[op] == "mul":
		k.MR, k.MC = k.SC, dim()
		if op != "MxM" {
			k.MC = 1
		}
		k.OR, k.OC = k.SR, k.MC
	case family[op] == "trans":
		k.OR, k.OC = k.SC, k.SR
	case op == "Equal" || op == "NotEqual" || op == "Compare" || op == "Less" || op == "Greater" || !isUnary(op) && family[op] != "":
		k.MR, k.MC = k.SR, k.SC
	}
	den := 1 + r.Intn(4)
	if d >= 16 {
		den = 4
	}
	nz := func(n int) []int {
		v := randVals(r, n, den, 3)
		if d >= 16 {
			for i := range v {
				if v[i] == 0 {
					v[i] = 2
				}
			}
		}
		return v
	}
	k.S, k.M, k.Old = nz(k.SR*k.SC), nz(k.MR*k.MC), randVals(r, k.OR*k.OC, r.Intn(4), 3)
	if op == "Equal" || op == "NotEqual" || op == "Compare" || op == "Less" || op == "Greater" {
		copy(k.M, k.S)
	}
	if op == "BFS" { // non-negative
		for i := range k.S {
			if k.S[i] < 0 {
				k.S[i] = -k.S[i]
			}
		}
	}
	k.Mask = nil
	if r.Intn(2) == 0 {
		k.Mask = maskRand(r, k.OR*k.OC, 3)
	}
	if isFresh(op) && family[op] != "" {
		k.OR, k.OC, k.Old, k.Mask = 0, 0, nil, nil
	}
	return k
}

func cancelCaseT(t *tracer, k numCase, cb combo, sample int) {
	switch cb.ty {
	case "int":
		cancelCase[int](t, k, cb, sample)
	case "int8":
		cancelCase[int8](t, k, cb, sample)
	case "int16":
		cancelCase[int16](t, k, cb, sample)
	case "int32":
		cancelCase[int32](t, k, cb, sample)
	case "int64":
		cancelCase[int64](t, k, cb, sample)
	case "uint":
		cancelCase[uint](t, k, cb, sample)
	case "uint8":
		cancelCase[uint8](t, k, cb, sample)
	case "uint16":
		cancelCase[uint16](t, k, cb, sample)
	case "uint32":
		cancelCase[uint32](t, k, cb, sample)
	case "uint64":
		cancelCase[uint64](t, k, cb, sample)
	case "uintptr":
		cancelCase[uintptr](t, k, cb, sample)
	case "float32":
		cancelCase[float32](t, k, cb, sample)
	case "float64":
		cancelCase[float64](t, k, cb, sample)
	}
}

// cancelCase runs one call with every cancellation point (a sample of them for large ones)
func cancelCase[T constraints.Number](t *tracer, k numCase, cb combo, sample int) {
	rnd := rand.New(rand.NewSource(seed*104729 + int64(t.n)))
	setProcs(t.n / 7)
	probes := rnd.Intn(2) == 0
	// never cancelled: how many points are there
	p := newPointCtx(0)
	total := cancelOne[T](t, k, cb, p, p, "count", probes)
	gc := goodCtxs[rnd.Intn(len(goodCtxs))]
	c, f := gc.mk()
	cancelOne[T](t, k, cb, c, nil, gc.name, false)
	f()
	p = newPointCtx(-1)
	cancelOne[T](t, k, cb, p, p, "pre", probes)
	if rnd.Intn(3) == 0 { // the same through a library context, and with a real one
		p = newPointCtx(-1)
		cancelOne[T](t, k, cb, g.NewContext(p, rnd.Intn(2)), p, "pre", probes)
		c, f := context.WithCancel(context.Background())
		f()
		cancelOne[T](t, k, cb, c, nil, "pre", false)
	}
	at := []int{}
	switch {
	case sample > 0 && total > sample:
		for i := 0; i < sample; i++ {
			at = append(at, 1+(total*i+rnd.Intn(total))/sample)
		}
	case total > 60:
		for i := 0; i < 60; i++ {
			at = append(at, 1+rnd.Intn(total))
		}
	default:
		for i := 1; i <= total; i++ {
			at = append(at, i)
		}
	}
	for _, a := range at {
		p = newPointCtx(a)
		var c context.Context = p
		if a%5 == 0 {
			c = g.NewContext(p, a%2)
		}
		cancelOne[T](t, k, cb, c, p, "point", probes)
	}
	if sample > 0 {
		for i := 0; i < 3; i++ {
			d := time.Duration(rnd.Intn(300)) * time.Microsecond
			if rnd.Intn(3) == 0 {
				c, f := context.WithTimeout(context.Background(), d)
				cancelOne[T](t, k, cb, c, nil, "async", false)
				f()
				continue
			}
			c, f := context.WithCancel(context.Background())
			go func() {
				time.Sleep(d)
				f()
			}()
			cancelOne[T](t, k, cb, c, nil, "async", false)
		}
	}
}

// cancelOne performs the call on fresh objects; the number of points passed is returned
func cancelOne[T constraints.Number](t *tracer, k numCase, cb combo, ctx context.Context, p *pointCtx, mode string, probes bool) int {
	if !t.begin() {
		// the same number of programs whatever is run: count without recording
		if mode != "count" {
			return 0
		}
	}
	rec := t.only == 0 || t.n == t.only
	ty := typeName[T]()
	val := valTable[T](false)
	ar, sc := 0, 1
	if b := bitsOf(ty); b == 8 || b == 16 {
		ar = b
	}
	if isFloat(ty) {
		sc = 2
	}
	outSc := sc
	if family[k.Op] == "mul" || family[k.Op] == "scal" {
		outSc = sc * sc
	}
	e := func(v T) any { return enc(v, ar, sc) }
	eo := func(v T) any { return enc(v, ar, outSc) }
	ret := contains(retOps, k.Op)
	hook := func(string) func() { return func() {} }
	if p != nil {
		hook = p.enter
	}
	wrap := func(m g.Matrix[T]) g.Matrix[T] {
		if _, vec := m.(g.Vector[T]); probes && m != nil && !vec {
			return &probe[T]{Matrix: m, enter: hook}
		}
		return m
	}
	s0 := build[T](cb.sk, k.SR, k.SC, k.S, val, cb.how)
	s := wrap(s0)
	var m0, m, o0, o g.Matrix[T]
	if len(k.M) > 0 || k.MR*k.MC > 0 {
		mk := cb.mk
		if mk == "" {
			mk = "csr"
		}
		switch k.Alias {
		case "sm", "all":
			m0, m = s0, s
		default:
			m0 = build[T](mk, k.MR, k.MC, k.M, val, cb.how/5)
			m = wrap(m0)
		}
		cb.mk = mk
	}
	if !ret {
		switch k.Alias {
		case "s", "all":
			o0, o = s0, s
		case "m":
			o0, o = m0, m
		default:
			o0 = build[T](cb.ok, k.OR, k.OC, k.Old, val, cb.how/25)
			o = wrap(o0)
		}
	}
	mask := nilMask
	var gm g.Mask
	mr, mc := k.OR, k.OC
	if o0 != nil {
		mr, mc = o0.Rows(), o0.Columns()
	}
	if k.Op == "RedVid" {
		mc = 1
	}
	if len(k.Mask) >= mr*mc && len(k.Mask) > 0 && (!ret || k.Op[0] == 'R') {
		mask = makeMask(cb.maskK, cb.maskTy, mr, mc, k.Mask[:mr*mc])
	} else if !ret || k.Op[0] == 'R' {
		mask = makeMask("empty", "", mr, mc, nil)
		if p == nil {
			mask = nilMask
		}
	}
	gm = mask.mask
	if gm != nil && p != nil {
		gm = &pointMask{gm, p}
	}
	alpha := val(k.Alpha)
	none := M{K: "none", D: []any{}}
	ev := J{"op": k.Op, "f": family[k.Op], "t": ty, "ar": ar, "sc": sc, "uf": k.Uf, "alias": k.Alias, "alpha": e(alpha), "mode": mode, "ret": ret,
		"s": project[T](cb.sk, s0, e), "m": none, "old": none, "new": none, "mask": projMask(mask)}
	if m0 != nil {
		ev["m"] = project[T](cb.mk, m0, e)
	}
	if o0 != nil {
		ev["old"] = project[T](cb.ok, o0, eo)
	}
	base := runtime.NumGoroutine()
	if mode == "async" {
		base-- // the one that cancels
		if base < 1 {
			base = 1
		}
	}
	var res g.MatrixLogical[T]
	ev["out"] = guard(func() {
		if ret {
			res = callRet[T](ctx, k, s, m, gm, alpha, p)
			return
		}
		if k.Op == "Apply" && p != nil {
			u := unaryFn[T](k.Uf)
			g.Apply[T](ctx, s, gm, unaryop.NewUnaryOp(func(x T) T { p.point(true); return u.Apply(x) }), o)
			return
		}
		call[T](ctx, k.Op, s, m, gm, o, k.Uf, alpha)
	})
	fired, after := false, 0
	total := 0
	if p != nil {
		fired, after = p.state()
		total = p.n
	} else {
		fired = ctx.Err() != nil
	}
	ev["fired"], ev["after"], ev["left"] = fired, after, 0
	big := k.SR
	for _, d := range []int{k.SC, k.MC} {
		big = max(big, d)
	}
	if needsVectors(k.Op) {
		big = 16
	}
	ev["lim"] = 8*big + 16
	if p != nil && probes && !ret && p.wrote <= big {
		// looking for the next cell to write is one pass over the operands
		ev["lim"] = 8*big*big + 16
	}
	if k.Op == "RedSid" {
		ev["lim"] = 8*big + 16 + k.SR*k.SC // what was sent before may be folded yet
	}
	if k.Op == "Strassen" || k.Op == "BFS" || k.Op == "SortR" || k.Op == "SortC" || k.Op == "RedV" || k.Op == "RedVid" || k.Op == "Compare" || k.Op == "Less" || k.Op == "Greater" {
		ev["lim"] = 1000000
	}
	if ev["out"] == "ok" {
		ev["left"] = leftover(base)
		if guard(func() {
			ev["s2"], ev["m2"] = project[T](cb.sk, s0, e), none
			if m0 != nil {
				ev["m2"] = project[T](cb.mk, m0, e)
			}
			if o0 != nil {
				ev["new"] = project[T](cb.ok, o0, eo)
			}
			ev["mask2"] = projMask(mask)
			ev["res"] = none
			if res != nil {
				ev["res"] = project[T]("", res, eo)
			}
		}) != "ok" {
			ev["out"] = "unreadable"
		}
	}
	if rec {
		t.emit(ev)
	}
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
	return total
}

func callRet[T constraints.Number](ctx context.Context, k numCase, s, m g.Matrix[T], mask g.Mask, alpha T, p *pointCtx) g.MatrixLogical[T] {
	switch k.Op {
	case "Scalar":
		return g.Scalar[T](ctx, s, alpha)
	case "ToCSR":
		return g.TransposeToCSR[T](ctx, s)
	case "ToCSC":
		return g.TransposeToCSC[T](ctx, s)
	case "Equal":
		g.Equal[T](ctx, s, m)
	case "NotEqual":
		g.NotEqual[T](ctx, s, m)
	case "RedS":
		g.ReduceMatrixToScalar[T](ctx, s, mask)
	case "RedV":
		g.ReduceMatrixToVector[T](ctx, s)
	case "RedSid", "RedVid":
		id := binaryop.NewMonoID[T](0, binaryop.NewBinaryOp[T](func(a, b T) T {
			if p != nil {
				p.point(true)
			}
			return a + b
		}))
		if k.Op == "RedSid" {
			g.ReduceMatrixToScalarWithMonoID[T](ctx, s, id, mask)
		} else {
			g.ReduceMatrixToVectorWithMonoID[T](ctx, s, id, mask)
		}
	case "BFS":
		levels := 0
		breadthfirst.Search[T](ctx, s, 0, func(v g.Vector[T]) bool {
			levels++
			if p != nil {
				p.point(false)
			}
			if levels > s.Rows() {
				panic("more levels than vertices")
			}
			return false
		})
	case "Strassen":
		strassen.MultiplyCrossoverPoint[T](ctx, s, m, 1)
	default:
		a, ok := any(s).(g.MatrixLogical[rune])
		if !ok {
			return nil
		}
		b, _ := any(m).(g.MatrixLogical[rune])
		switch k.Op {
		case "Compare":
			g.Compare(ctx, a, b)
		case "Less":
			g.Less(ctx, a, b)
		case "Greater":
			g.Greater(ctx, a, b)
		case "String":
			g.String(ctx, a)
		case "SortR":
			sort.BubbleRow(ctx, a)
		case "SortC":
			sort.BubbleColumns(ctx, a)
		default:
			panic("harness: ret op " + k.Op)
		}
	}
	return nil
}
