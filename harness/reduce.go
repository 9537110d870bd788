package main

// C10: reductions of matrices, vectors and streams under perturbed schedules

import (
	"math/rand"
	"runtime"
	"sync"
	"time"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/constraints"
)

type streamCase struct {
	Cap    int    `json:"cap"`
	Vals   []int  `json:"vals"`
	How    string `json:"how"`
	Closed bool   `json:"closed"`
}

// jitter disturbs the schedule
type jitter struct {
	mu    sync.Mutex
	r     *rand.Rand
	level int
}

func newJitter(seed int64, level int) *jitter {
	return &jitter{r: rand.New(rand.NewSource(seed)), level: level}
}

func (j *jitter) point() {
	if j == nil || j.level == 0 {
		return
	}
	j.mu.Lock()
	x := j.r.Intn(64)
	j.mu.Unlock()
	switch {
	case x < 24:
		runtime.Gosched()
	case x < 24+j.level:
		time.Sleep(time.Duration(1+x) * time.Microsecond)
	}
}

// leftover waits for the goroutines started since the baseline to end
func leftover(base int) int {
	for i := 0; ; i++ {
		n := runtime.NumGoroutine() - base
		if n <= 0 {
			return 0
		}
		switch {
		case i < 50:
			runtime.Gosched()
		case i < 400:
			time.Sleep(50 * time.Microsecond)
		case i < 700:
			time.Sleep(10 * time.Millisecond)
		default:
			leaks++
			return n
		}
	}
}

// leaks: calls that left goroutines behind
var leaks int

var procs = []int{1, 2, 8, 4, 3}

func setProcs(n int) { runtime.GOMAXPROCS(procs[n%len(procs)]) }

type mono[T constraints.None] struct {
	name string
	unit T
	op   func(a, b T) T
	id   binaryop.MonoID[T]
}

var curJitter *jitter

// numMono: fold functions of the driver, wrapped by the library's monoid; one object per type and name is used throughout
var monos = map[string]any{}

func numMono[T constraints.Number](name string) *mono[T] {
	key := typeName[T]() + name
	if m, ok := monos[key]; ok {
		return m.(*mono[T])
	}
	m := &mono[T]{name: name}
	switch name {
	case "add":
		m.op = func(a, b T) T { return a + b }
	case "mul":
		m.unit = T(1)
		m.op = func(a, b T) T { return a * b }
	case "max":
		m.op = func(a, b T) T {
			if a < b {
				return b
			}
			return a
		}
	case "min":
		m.unit = T(100)
		m.op = func(a, b T) T {
			if a < b {
				return a
			}
			return b
		}
	case "lst": // the newest
		m.unit = T(5)
		m.op = func(a, b T) T { return b }
	case "sub": // order matters
		m.unit = T(3)
		m.op = func(a, b T) T { return a - b }
	case "lin":
		m.unit = T(1)
		m.op = func(a, b T) T { return a + a + b }
	case "cat": // digits
		m.unit = T(1)
		m.op = func(a, b T) T { return a*T(16) + b }
	default:
		panic("harness: mono " + name)
	}
	f := m.op
	op := func(a, b T) T { curJitter.point(); return f(a, b) }
	m.id = binaryop.NewMonoID[T](m.unit, binaryop.NewBinaryOp[T](op))
	monos[key] = m
	return m
}

// slowMono is a monoid of the user's own: correct, but it takes its time
type slowMono[T constraints.None] struct {
	m *mono[T]
	j *jitter
}

func (s *slowMono[T]) Zero() T { return s.m.unit }
func (s *slowMono[T]) Reduce(done <-chan struct{}, slice <-chan T) <-chan T {
	out := make(chan T)
	go func() {
		acc := s.m.unit
		for {
			s.j.point()
			select {
			case v, ok := <-slice:
				if ok {
					acc = s.m.op(acc, v)
				} else {
					slice = nil
				}
			case <-done:
				s.j.point()
				out <- acc
				close(out)
				return
			}
		}
	}()
	return out
}

// boolMono: folds over booleans; implication shows the order
func boolMono(name string) *mono[bool] {
	if m, ok := monos["bool"+name]; ok {
		return m.(*mono[bool])
	}
	m := &mono[bool]{name: name}
	switch name {
	case "and":
		m.unit, m.op = true, func(a, b bool) bool { return a && b }
	case "or":
		m.op = func(a, b bool) bool { return a || b }
	case "imp":
		m.unit, m.op = true, func(a, b bool) bool { return !a || b }
	}
	f := m.op
	m.id = binaryop.NewMonoID[bool](m.unit, binaryop.NewBinaryOp[bool](func(a, b bool) bool { curJitter.point(); return f(a, b) }))
	monos["bool"+name] = m
	return m
}

var sizes = []int{31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 768, 1000, 1023, 1024, 1025}

func reduceDriver(t *tracer) {
	var gen []struct {
		streamCase
		numCase
	}
	readGen(&gen)
	rnd := rand.New(rand.NewSource(seed))
	reps := 4
	if thorough {
		reps = 40
	}
	n := 0
	stream := func(c streamCase) {
		n++
		if n%15 == 0 {
			name := []string{"and", "or", "imp"}[n/15%3]
			oneStream[bool](t, n, c, name, boolMono(name), func(i int) bool { return i%2 == 1 }, func(b bool) any { return enc(b, 0, 1) }, 0)
			return
		}
		streamType(t, n, c)
	}
	for _, k := range gen {
		if k.How != "" {
			for i := 0; i < reps*4; i++ {
				stream(k.streamCase)
			}
			continue
		}
		for i := 0; i < reps/2+1; i++ {
			n++
			reduceType(t, n, k.numCase, n%13, false)
		}
	}
	big := 500
	if thorough {
		big = 6000
	}
	for i := 0; i < big; i++ {
		c := streamCase{Cap: rnd.Intn(9) * rnd.Intn(2), How: []string{"send", "close"}[rnd.Intn(2)], Closed: rnd.Intn(3) == 0}
		l := rnd.Intn(40)
		if i%60 == 9 { // long
			l = 60 + rnd.Intn(1200)
		}
		for ; l > 0; l-- {
			c.Vals = append(c.Vals, rnd.Intn(9))
		}
		stream(c)
	}
	for _, l := range sizes { // of a batch, and one more or less
		for _, how := range []string{"close", "send", "send"} {
			c := streamCase{Cap: rnd.Intn(3) * rnd.Intn(200), How: how}
			for i := 0; i < l; i++ {
				c.Vals = append(c.Vals, 1+rnd.Intn(8))
			}
			stream(c)
		}
		for j := 0; j < 4; j++ { // completely filled
			n++
			k := numCase{SR: l, SC: 1}
			switch {
			case j == 1 && l <= 300:
				k.SR, k.SC = 2, l
			case j == 2 && l%8 == 0:
				k.SR, k.SC = l/8, 8
			}
			k.S = make([]int, k.SR*k.SC)
			for i := range k.S {
				k.S[i] = 1 + rnd.Intn(3)
			}
			if j == 3 {
				k.S[rnd.Intn(l)] = 0
			}
			reduceType(t, n, k, rnd.Intn(13), false)
		}
	}
	big *= 5
	for i := 0; i < big; i++ {
		n++
		k := numCase{SR: rnd.Intn(6), SC: 1 + rnd.Intn(5)}
		if rnd.Intn(3) == 0 {
			k.SC = 1
		}
		if rnd.Intn(60) == 0 {
			k.SR, k.SC = 20+rnd.Intn(20), 1+rnd.Intn(20)
			switch rnd.Intn(4) {
			case 0:
				k.SR, k.SC = 64+rnd.Intn(300), 1
			case 1:
				k.SR, k.SC = 1+rnd.Intn(3), 30+rnd.Intn(110)
			case 2:
				k.SR, k.SC = 64+rnd.Intn(100), 1+rnd.Intn(3)
			}
		}
		lim := 3
		if rnd.Intn(4) == 0 {
			lim = 100
		}
		k.S = randVals(rnd, k.SR*k.SC, 1+rnd.Intn(4), lim)
		if rnd.Intn(3) > 0 {
			k.Mask = maskRand(rnd, k.SR*k.SC, 1+rnd.Intn(3))
		}
		reduceType(t, n, k, rnd.Intn(13), rnd.Intn(4) == 0)
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	t.huge(func() { hugeReduce(t, rand.New(rand.NewSource(seed*991))) })
}

func streamType(t *tracer, n int, c streamCase) {
	switch n % 13 {
	case 0:
		numStream[int](t, n, c)
	case 1:
		numStream[int8](t, n, c)
	case 2:
		numStream[int16](t, n, c)
	case 3:
		numStream[int32](t, n, c)
	case 4:
		numStream[int64](t, n, c)
	case 5:
		numStream[uint](t, n, c)
	case 6:
		numStream[uint8](t, n, c)
	case 7:
		numStream[uint16](t, n, c)
	case 8:
		numStream[uint32](t, n, c)
	case 9:
		numStream[uint64](t, n, c)
	case 10:
		numStream[uintptr](t, n, c)
	case 11:
		numStream[float32](t, n, c)
	case 12:
		numStream[float64](t, n, c)
	}
}

// arFor: the arithmetic exact for any result in the type
func arFor(ty string) int {
	switch b := bitsOf(ty); b {
	case 0:
		return 0
	case 8, 16:
		return b
	default:
		return 100 + b
	}
}

func numStream[T constraints.Number](t *tracer, n int, c streamCase) {
	ty := typeName[T]()
	names := []string{"add", "mul", "lin", "sub", "max", "min", "cat", "cat", "lst"}
	if isFloat(ty) {
		names = []string{"add", "sub", "max", "min", "lst"}
	}
	ar := arFor(ty)
	name := names[(n/13)%len(names)]
	val := func(i int) T { return T(i) }
	if isFloat(ty) && n%5 < 3 { // with NaN and the infinities
		ar = 1
		special := specVal[T](1 + n%5)
		val = func(i int) T { return special(i - 4) }
	}
	oneStream[T](t, n, c, name, numMono[T](name), val, func(v T) any { return enc(v, ar, 1) }, ar)
}

func oneStream[T constraints.None](t *tracer, n int, c streamCase, name string, m *mono[T], val func(int) T, e func(T) any, ar int) {
	if !t.begin() {
		return
	}
	setProcs(n)
	j := newJitter(seed*1000003+int64(n), (n/3)%9)
	curJitter = j
	vals := []any{}
	for _, v := range c.Vals {
		vals = append(vals, e(val(v)))
	}
	ev := J{"op": "Stream", "mono": name, "t": typeName[T](), "ar": ar, "uns": isUnsigned2(typeName[T]()), "unit": e(m.unit), "vals": vals, "cap": c.Cap, "how": c.How, "closed": c.Closed}
	base := runtime.NumGoroutine()
	got := []any{}
	more := false
	prefill := c.Cap >= len(c.Vals) && n%3 == 0
	ev["prefill"] = prefill
	ev["out"] = guard(func() {
		done := make(chan struct{})
		slice := make(chan T, c.Cap)
		produce := func() {
			for _, v := range c.Vals {
				j.point()
				slice <- val(v)
			}
			if c.Closed {
				close(slice)
			}
			j.point()
			if c.How == "close" {
				close(done)
			}
		}
		if prefill {
			produce()
		}
		out := m.id.Reduce(done, slice)
		go func() {
			if !prefill {
				produce()
			}
			if c.How == "send" {
				done <- struct{}{}
			}
		}()
		j.point()
		got = append(got, e(<-out))
		_, more = <-out
	})
	ev["zero"] = e(m.id.Zero())
	ev["got"], ev["more"] = got, more
	ev["left"] = 0
	if ev["out"] == "ok" {
		ev["left"] = leftover(base)
	}
	t.emit(ev)
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
}

func isUnsigned2(ty string) bool { return ty != "?" && isUnsigned(ty) }

// hugeReduce reduces windows of objects with very many rows or columns
func hugeReduce(t *tracer, rnd *rand.Rand) {
	rounds := 26
	if thorough {
		rounds = 13 * 20
	}
	for i := 0; i < rounds; i++ {
		k := numCase{}
		w := &windows{n: [3]int{1 + rnd.Intn(3), 1 + rnd.Intn(3), 1}}
		if i%3 == 1 {
			w.n[1] = 1
		}
		long := i % 2
		if i%3 == 1 {
			long = 0
		}
		for a := range w.n {
			w.idx[a] = all(w.n[a])
			if a == long {
				w.n[a] = []int{66000, 70000, 1<<17 + 3}[rnd.Intn(3)]
				w.idx[a] = window(rnd, w.n[a], 5+rnd.Intn(3))
			}
		}
		k.SR, k.SC, k.win = len(w.idx[0]), len(w.idx[1]), w
		k.S = randVals(rnd, k.SR*k.SC, 1+rnd.Intn(4), 4)
		if rnd.Intn(3) > 0 {
			k.Mask = maskRand(rnd, k.SR*k.SC, rnd.Intn(4))
		}
		reduceType(t, i*7, k, i%13, false)
	}
}

func reduceType(t *tracer, n int, k numCase, ty int, parallel bool) {
	switch ty {
	case 0:
		oneReduce[int](t, n, k, parallel)
	case 1:
		oneReduce[int8](t, n, k, parallel)
	case 2:
		oneReduce[int16](t, n, k, parallel)
	case 3:
		oneReduce[int32](t, n, k, parallel)
	case 4:
		oneReduce[int64](t, n, k, parallel)
	case 5:
		oneReduce[uint](t, n, k, parallel)
	case 6:
		oneReduce[uint8](t, n, k, parallel)
	case 7:
		oneReduce[uint16](t, n, k, parallel)
	case 8:
		oneReduce[uint32](t, n, k, parallel)
	case 9:
		oneReduce[uint64](t, n, k, parallel)
	case 10:
		oneReduce[uintptr](t, n, k, parallel)
	case 11:
		oneReduce[float32](t, n, k, parallel)
	case 12:
		oneReduce[float64](t, n, k, parallel)
	}
}

// yieldMask disturbs the schedule between the elements
type yieldMask struct {
	g.Mask
	j *jitter
}

func (y *yieldMask) Element(r, c int) bool { y.j.point(); return y.Mask.Element(r, c) }

func oneReduce[T constraints.Number](t *tracer, n int, k numCase, parallel bool) {
	if !t.begin() {
		return
	}
	setProcs(n)
	rnd := rand.New(rand.NewSource(seed*7919 + int64(n)))
	j := newJitter(rnd.Int63(), rnd.Intn(9))
	curJitter = j
	ty := typeName[T]()
	ar := arFor(ty)
	e := func(v T) any { return enc(v, ar, 1) }
	ops := []string{"MS", "MSid", "MV", "MVid", "MSid"}
	kinds := []string{"dn", "csr", "csc"}
	logical := false
	if k.SC == 1 {
		ops = append(ops, "VS", "VSid", "VSid")
		kinds = append(kinds, "dvn", "sv", "sv")
	}
	op := ops[rnd.Intn(len(ops))]
	kind := kinds[rnd.Intn(len(kinds))]
	switch {
	case op == "VS" || op == "VSid":
		kind = []string{"dvn", "sv", "dv"}[rnd.Intn(3)]
	case (op == "MS" || op == "MSid") && rnd.Intn(5) == 0:
		kind = "dm"
		if k.SC == 1 && rnd.Intn(2) == 0 {
			kind = "dv"
		}
	}
	if k.win != nil {
		kind = []string{"csr", "csc"}[rnd.Intn(2)]
		if k.SC == 1 && (op == "VS" || op == "VSid" || rnd.Intn(2) == 0) {
			kind = "sv"
		}
	}
	names := []string{"add", "max", "min"}
	small := true
	for _, v := range k.S {
		small = small && v < 4 && v > -4
	}
	if !isFloat(ty) || small && len(k.S) <= 9 {
		names = append(names, "mul", "mul")
	}
	name := names[rnd.Intn(len(names))]
	m := numMono[T](name)
	id := m.id
	if rnd.Intn(4) == 0 && k.win == nil {
		id = &slowMono[T]{m, j}
	}
	switch op {
	case "MS", "VS":
		name = "add"
	case "MV":
		name = "max"
	}
	val := func(i int) T { return T(int64(i)) }
	if isFloat(ty) && rnd.Intn(3) == 0 && small { // maxima and minima of NaN depend on the order
		ar, val = 1, specVal[T](4)
		if name == "add" || name == "mul" {
			val = specVal[T](1 + rnd.Intn(4))
		}
	}
	var s g.MatrixLogical[T]
	if k.win != nil {
		s = look[T](k.win, "Add", 's', buildIn[T](k.win, "Add", 's', kind, k.SR, k.SC, k.S, val, rnd.Intn(5)))
	} else if kind == "dm" || kind == "dv" {
		logical = true
		s = mkLogicalNum[T](kind, k.SR, k.SC)
		for i, v := range k.S {
			if v != 0 {
				s.Set(i/k.SC, i%k.SC, val(v))
			}
		}
	} else {
		x := build[T](kind, k.SR, k.SC, k.S, val, rnd.Intn(5))
		if t.n%7 == 2 {
			x = own[T](x, t.n/7)
		}
		s = x
	}
	_ = logical
	// the mask of a reduction to a vector has the shape of one column
	mr, mc, sel := k.SR, k.SC, k.Mask
	if op == "MV" {
		sel = nil
	}
	if op == "MVid" && len(sel) > 0 {
		mc = 1
		col := make([]int, k.SR)
		for i := range col {
			col[i] = sel[i*k.SC]
		}
		sel = col
	}
	mask := nilMask
	if k.win != nil {
		if len(sel) > 0 {
			mw := *k.win
			if op == "MVid" {
				mw.n[1], mw.idx[1] = 1, all(1)
			}
			mask = mw.mask("Add", []string{"csr", "csc", "user"}[rnd.Intn(3)], sel)
		}
	} else if len(sel) > 0 {
		mks := []string{"csr", "dn", "user", "csc", "mutex"}
		if mc == 1 {
			mks = append(mks, "dvn", "sv")
		}
		mask = makeMask(mks[rnd.Intn(len(mks))], maskTypes[rnd.Intn(len(maskTypes))], mr, mc, sel)
	} else if op != "MV" && rnd.Intn(6) == 0 {
		if op == "MVid" {
			mc = 1
		}
		mask = makeMask("empty", "", mr, mc, nil)
	}
	gm := mask.mask
	if gm != nil && k.win == nil && rnd.Intn(2) == 0 {
		gm = &yieldMask{gm, j}
	}
	ev := J{"op": "Reduce", "form": op, "mono": name, "t": ty, "ar": ar, "uns": isUnsigned(ty), "unit": e(m.unit), "s": project[T](kind, s, e), "mask": projMask(mask)}
	if op == "MS" || op == "VS" || op == "MV" {
		ev["unit"] = e(T(0))
	}
	ctx, in := anyCtx(t.n), unwrap(s)
	run := func() any {
		vec := func(v g.Vector[T]) any {
			out := []any{}
			assert(v.Columns() == 1, "reduced vector has columns")
			if k.win != nil {
				assert(v.Rows() == k.win.n[1], "reduced vector has other rows")
				for _, i := range k.win.idx[1] {
					out = append(out, e(v.AtVec(i)))
				}
				return out
			}
			for i := 0; i < v.Rows(); i++ {
				out = append(out, e(v.AtVec(i)))
			}
			return out
		}
		switch op {
		case "MS":
			return []any{e(g.ReduceMatrixToScalar[T](ctx, in, gm))}
		case "MSid":
			return []any{e(g.ReduceMatrixToScalarWithMonoID[T](ctx, in, id, gm))}
		case "VS":
			return []any{e(g.ReduceVectorToScalar[T](ctx, in.(g.VectorLogial[T]), gm))}
		case "VSid":
			return []any{e(g.ReduceVectorToScalarWithMonoID[T](ctx, in.(g.VectorLogial[T]), id, gm))}
		case "MV":
			return vec(g.ReduceMatrixToVector[T](ctx, in.(g.Matrix[T])))
		default:
			return vec(g.ReduceMatrixToVectorWithMonoID[T](ctx, in.(g.Matrix[T]), id, gm))
		}
	}
	times := 1
	if parallel {
		times = 4
	}
	if n%4 == 1 && k.win == nil {
		warm[T](n/4, func() { run() }, s)
	}
	base := runtime.NumGoroutine()
	got := make([]any, times)
	res := guard(func() {
		var wg sync.WaitGroup
		bad := make([]string, times)
		for i := 1; i < times; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				bad[i] = inline(func() { got[i] = run() })
			}()
		}
		got[0] = run()
		wg.Wait()
		for i := 1; i < times; i++ {
			if bad[i] != "ok" {
				panic(bad[i])
			}
		}
	})
	ev["out"], ev["got"], ev["left"] = res, []any{}, 0
	if res == "ok" {
		ev["got"] = got
		ev["left"] = leftover(base)
	}
	t.emit(ev)
	if res == "hang" {
		t.close()
		exit(0)
	}
}
