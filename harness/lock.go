package main

// C12: the lock wrapper, with a wrapped matrix that reports and delays every access

import (
	"bytes"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

func goid() int {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.Atoi(string(f[1]))
	return n
}

func modifies(op string) bool {
	switch op {
	case "Set", "Update", "Clear", "MapStep", "f":
		return true
	}
	return false
}

// lockLog records when each thread enters and leaves the wrapped contents
type lockLog struct {
	mu     sync.Mutex
	ev     []any
	thread map[int]int
	count  map[int]int // accesses per thread
	gateTh int         // the thread to be stopped
	gateAt int         // at its k-th access
	inGate chan struct{}
	open   chan struct{}
	boom   bool // panic there instead of waiting
	yield  *jitter
}

func newLockLog() *lockLog {
	return &lockLog{ev: []any{}, thread: map[int]int{}, count: map[int]int{}, inGate: make(chan struct{}), open: make(chan struct{})}
}

func (l *lockLog) as(th int) {
	l.mu.Lock()
	l.thread[goid()] = th
	l.mu.Unlock()
}

func (l *lockLog) enter(op string) func() {
	l.mu.Lock()
	th := l.thread[goid()]
	if th == 0 { // set up, not part of the scenario
		l.mu.Unlock()
		return func() {}
	}
	l.count[th]++
	hit := th == l.gateTh && l.count[th] == l.gateAt
	l.ev = append(l.ev, J{"th": th, "in": true, "mod": modifies(op), "op": op})
	l.mu.Unlock()
	out := func() {
		l.mu.Lock()
		l.ev = append(l.ev, J{"th": th, "in": false, "mod": modifies(op), "op": op})
		l.mu.Unlock()
	}
	if hit {
		if l.boom {
			out()
			panic("wrapped contents fail")
		}
		close(l.inGate)
		<-l.open
	}
	l.yield.point()
	return out
}

// lockOps: a call by name; the result is encoded
func lockCall[T constraints.Number](w lockable[T], op string, r, c int, v T, other g.Matrix[T], l func(string) func(), e func(T) any) any {
	m := func(x g.MatrixLogical[T]) any { return J{"r": x.Rows(), "c": x.Columns(), "d": project[T]("", x, e).D} }
	f := func(x T) T {
		defer l("f")()
		return x + v
	}
	switch op {
	case "At":
		return []any{e(w.At(r, c))}
	case "Set":
		w.Set(r, c, v)
	case "Update":
		w.Update(r, c, f)
	case "Clear":
		w.Clear()
	case "Values":
		return []any{w.Values()}
	case "Size":
		return []any{w.Size(), w.Rows(), w.Columns()}
	case "Enum":
		out := make([]any, w.Rows()*w.Columns())
		for i := range out {
			out[i] = 0
		}
		n := 0
		for it := w.Enumerate(); it.HasNext(); {
			r, c, v := it.Next()
			out[r*w.Columns()+c] = e(v)
			if n++; n > 4*len(out)+4 {
				panic("endless iteration")
			}
		}
		return out
	case "MapStep":
		seen := map[[2]int]int{}
		n := 0
		for it := w.Map(); it.HasNext(); {
			it.Map(func(r, c int, x T) T {
				defer l("f")()
				seen[[2]int{r, c}]++
				return x + v
			})
			if n++; n > 4*w.Rows()*w.Columns()+4 {
				panic("endless iteration")
			}
		}
		return []any{len(seen) == n}
	case "Element":
		return []any{w.Element(r, c)}
	case "Copy":
		return m(w.Copy())
	case "RowsAt":
		return m(w.RowsAt(r))
	case "ColumnsAt":
		return m(w.ColumnsAt(c))
	case "RowsAtToArray":
		out := []any{}
		for _, x := range w.RowsAtToArray(r) {
			out = append(out, e(x))
		}
		return out
	case "Scalar":
		return m(w.Scalar(v))
	case "Multiply":
		return m(w.Multiply(other.Transpose().(g.Matrix[T])))
	case "Add":
		return m(w.Add(other))
	case "Subtract":
		return m(w.Subtract(other))
	case "Negative":
		return m(w.Negative())
	case "Transpose":
		return m(w.Transpose())
	case "Equal":
		return []any{w.Equal(other)}
	case "NotEqual":
		return []any{w.NotEqual(other)}
	default:
		panic("harness: lock op " + op)
	}
	return []any{}
}

var lockOps = []string{"At", "Set", "Update", "Clear", "Values", "Enum", "MapStep", "Element", "Copy", "RowsAt", "ColumnsAt", "RowsAtToArray",
	"Scalar", "Multiply", "Add", "Subtract", "Negative", "Transpose", "Equal", "NotEqual"}

// lockable: what the wrapper and a plain matrix have in common (their Copy differs)
type lockable[T constraints.Number] interface {
	Rows() int
	Columns() int
	Size() int
	Values() int
	At(r, c int) T
	Set(r, c int, v T)
	Update(r, c int, f func(T) T)
	Clear()
	Enumerate() g.Enumerate[T]
	Map() g.Map[T]
	Element(r, c int) bool
	Copy() g.MatrixLogical[T]
	RowsAt(r int) g.VectorLogial[T]
	ColumnsAt(c int) g.VectorLogial[T]
	RowsAtToArray(r int) []T
	Scalar(T) g.Matrix[T]
	Multiply(g.Matrix[T]) g.Matrix[T]
	Add(g.Matrix[T]) g.Matrix[T]
	Subtract(g.Matrix[T]) g.Matrix[T]
	Negative() g.MatrixLogical[T]
	Transpose() g.MatrixLogical[T]
	Equal(g.MatrixLogical[T]) bool
	NotEqual(g.MatrixLogical[T]) bool
}

type plain[T constraints.Number] struct{ g.Matrix[T] }

func (p plain[T]) Copy() g.MatrixLogical[T] { return p.Matrix.Copy() }

type lockCase struct {
	Calls [][]any `json:"calls"`
}

func lockDriver(t *tracer) {
	var gen []lockCase
	readGen(&gen)
	n := 0
	for _, c := range gen {
		a, b := c.Calls[0][1].(string), c.Calls[1][1].(string)
		n++
		lockPair[int](t, n, a, b)
		if thorough || n%4 == 0 {
			lockPair[float64](t, n+1, a, b)
			lockPair[uint8](t, n+2, a, b)
		}
	}
	rnd := rand.New(rand.NewSource(seed))
	for _, op := range lockOps {
		for i := 0; i < 3; i++ {
			n++
			lockPanic[int](t, n, op)
			lockPanic[float32](t, n, op)
		}
		lockStorm[int](t, n, op)
	}
	seqs, hists := 400, 2500
	if thorough {
		seqs, hists = 5000, 40000
	}
	for i := 0; i < seqs; i++ {
		switch i % 4 {
		case 0:
			lockSeq[int](t, rnd.Int63())
		case 1:
			lockSeq[int8](t, rnd.Int63())
		case 2:
			lockSeq[float64](t, rnd.Int63())
		case 3:
			lockSeq[uint16](t, rnd.Int63())
		}
	}
	for i := 0; i < hists; i++ {
		switch i % 3 {
		case 0:
			lockHist[int](t, rnd.Int63())
		case 1:
			lockHist[float64](t, rnd.Int63())
		case 2:
			lockHist[uint8](t, rnd.Int63())
		}
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
}

// lockObjects: shape 0 is small, the others are of many columns or rows
func lockObjects[T constraints.Number](n, shape int, l *lockLog) (*g.MutexMatrix[T], g.Matrix[T], g.Matrix[T], string) {
	kinds := []string{"dn", "csr", "csc", "sv", "dvn"}
	kind := kinds[n%len(kinds)]
	dims := [][2]int{{2, 2}, {2, 40}, {40, 2}, {2, 700}, {150, 3}, {18, 18}}[shape%6]
	r, c := dims[0], dims[1]
	if isVecKind(kind) {
		r, c = []int{2, 40, 33, 300, 150, 70}[shape%6], 1
	}
	d, d2 := make([]int, r*c), make([]int, r*c)
	for i := range d {
		d[i], d2[i] = []int{1, 2, 0, 3}[i%4], []int{1, 0, 2, 3}[i%4]
	}
	inner := build[T](kind, r, c, d, func(i int) T { return T(i) }, 0)
	other := build[T]("csr", r, c, d2, func(i int) T { return T(i) }, 0)
	return g.NewMutexMatrix[T](&probe[T]{Matrix: inner, enter: l.enter, plainCopies: true}), inner, other, kind
}

func locked(w any) bool {
	if l, ok := w.(interface {
		TryLock() bool
		Unlock()
	}); ok {
		if !l.TryLock() {
			return true
		}
		l.Unlock()
	}
	return false
}

// usable: another goroutine can still write and read
func usable[T constraints.Number](w *g.MutexMatrix[T]) bool {
	return guard(func() { w.Set(0, 0, T(1)); w.At(0, 0) }) == "ok"
}

// lockPair stops the first call inside the wrapped contents, at each of its accesses, while the second is made
func lockPair[T constraints.Number](t *tracer, n int, a, b string) {
	// how many accesses does the first make
	l := newLockLog()
	shape := 0
	if n%3 == 0 {
		shape = 1 + n/3%5
	}
	w, _, other, _ := lockObjects[T](n, shape, l)
	nop := func(T) any { return 0 }
	res := guard(func() { l.as(1); lockCall[T](w, a, 0, 0, T(1), other, l.enter, nop) })
	total := l.count[1]
	if res != "ok" {
		total = 1
	}
	if total > 5 && !thorough {
		total = 5
	}
	for k := 1; k <= total; k++ {
		if !t.begin() {
			continue
		}
		l := newLockLog()
		l.gateTh, l.gateAt = 1, k
		w, _, other, kind := lockObjects[T](n, shape, l)
		doneA, doneB := make(chan string, 1), make(chan string, 1)
		go func() {
			doneA <- inline(func() { l.as(1); lockCall[T](w, a, 0, 0, T(1), other, l.enter, nop) })
		}()
		out := "ok"
		wait := func(ch chan string) {
			select {
			case r := <-ch:
				if r != "ok" {
					out = r
				}
			case <-time.After(hangLimit):
				out = "stuck"
			}
		}
		stopped := false
		select {
		case <-l.inGate:
			stopped = true
		case r := <-doneA:
			doneA <- r
		case <-time.After(hangLimit):
			out = "stuck"
		}
		if stopped {
			go func() {
				doneB <- inline(func() { l.as(2); lockCall[T](w, b, 0, 0, T(1), other, l.enter, nop) })
			}()
			select {
			case r := <-doneB:
				doneB <- r
			case <-time.After(2 * time.Millisecond):
			}
			close(l.open)
			wait(doneB)
		}
		wait(doneA)
		l.mu.Lock()
		t.emit(J{"op": "pair", "a": a, "b": b, "k": kind, "t": typeName[T](), "out": out, "locked": out == "ok" && locked(w), "ev": append([]any{}, l.ev...)})
		l.mu.Unlock()
		if out == "stuck" {
			t.close()
			exit(0)
		}
	}
}

// lockPanic lets a call fail inside, and then looks whether the lock is free again
func lockPanic[T constraints.Number](t *tracer, n int, op string) {
	for k := 1; k <= 4; k++ {
		if !t.begin() {
			continue
		}
		l := newLockLog()
		l.gateTh, l.gateAt, l.boom = 1, k, true
		w, _, other, kind := lockObjects[T](n, 0, l)
		nop := func(T) any { return 0 }
		if n%2 == 0 && k == 4 { // out of range instead
			l.gateAt = 0
			guard(func() { l.as(1); lockCall[T](w, op, 7, 7, T(1), other, l.enter, nop) })
		} else {
			guard(func() { l.as(1); lockCall[T](w, op, 0, 0, T(1), other, l.enter, nop) })
		}
		lk := locked(w)
		l.thread = map[int]int{}
		ok := lk || usable(w)
		out := "ok"
		if !ok {
			out = "stuck"
		}
		t.emit(J{"op": "panic", "a": op, "k": kind, "t": typeName[T](), "out": out, "locked": lk, "ev": []any{}})
		if out == "stuck" {
			t.close()
			exit(0)
		}
	}
}

// lockStorm: many calls while others write; a call that takes the reader lock twice gets stuck
func lockStorm[T constraints.Number](t *tracer, n int, op string) {
	if !t.begin() {
		return
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	l := newLockLog()
	_, inner, other, kind := lockObjects[T](n, 0, l)
	w := g.NewMutexMatrix[T](inner)
	none := func(string) func() { return func() {} }
	nop := func(T) any { return 0 }
	times := 1500
	out := guard(func() {
		var wg sync.WaitGroup
		bad := int32(0)
		for i := 0; i < 4; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				if inline(func() {
					for j := 0; j < times; j++ {
						if i%2 == 0 {
							lockCall[T](w, op, 0, 0, T(1), other, none, nop)
						} else {
							w.Set(j%2, 0, T(j%3))
						}
					}
				}) != "ok" {
					atomic.StoreInt32(&bad, 1)
				}
			}()
		}
		wg.Wait()
		if bad != 0 {
			panic("a call failed")
		}
	})
	if out == "hang" {
		out = "stuck"
	}
	t.emit(J{"op": "storm", "a": op, "k": kind, "t": typeName[T](), "out": out, "locked": out == "ok" && locked(w), "ev": []any{}})
	if out == "stuck" {
		t.close()
		exit(0)
	}
}

// lockSeq: one call after the other, next to the same calls on a plain matrix
func lockSeq[T constraints.Number](t *tracer, sd int64) {
	if !t.begin() {
		return
	}
	rnd := rand.New(rand.NewSource(sd))
	r, c := 1+rnd.Intn(3), 1+rnd.Intn(3)
	ks := kindsFor(r, c, false)
	kind := ks[rnd.Intn(len(ks))]
	d := randVals(rnd, r*c, 2, 2)
	val := func(i int) T { return T(int64(i)) }
	inner := build[T](kind, r, c, d, val, 0)
	twin := plain[T]{build[T](kind, r, c, d, val, 0)}
	other := build[T]("csr", r, c, randVals(rnd, r*c, 2, 2), val, 0)
	w := g.NewMutexMatrix[T](inner)
	ar := 0
	if b := bitsOf(typeName[T]()); b == 8 || b == 16 {
		ar = b
	}
	e := func(v T) any { return enc(v, ar, 1) }
	evs := []any{}
	out := guard(func() {
		for i := 0; i < 12; i++ {
			op := append([]string{"Size", "Set", "Update"}, lockOps...)[rnd.Intn(len(lockOps)+3)]
			r1, c1, v := rnd.Intn(r), rnd.Intn(c), val(rnd.Intn(4))
			if op == "Equal" || op == "NotEqual" {
				if rnd.Intn(2) == 0 {
					other = twin.Matrix.Copy()
				}
			}
			none := func(string) func() { return func() {} }
			var got, want any = []any{}, []any{}
			a := inline(func() { got = lockCall[T](w, op, r1, c1, v, other, none, e) })
			b := inline(func() { want = lockCall[T](twin, op, r1, c1, v, other, none, e) })
			evs = append(evs, J{"op": op, "got": J{"out": a, "res": got}, "want": J{"out": b, "res": want}, "obs": project[T](kind, inner, e), "obs2": project[T](kind, twin.Matrix, e)})
		}
	})
	t.emit(J{"op": "seq", "k": kind, "t": typeName[T](), "out": out, "locked": out == "ok" && locked(w), "ev": []any{}, "calls": evs})
}

// lockHist: a few calls by several goroutines, with when each began and ended
func lockHist[T constraints.Number](t *tracer, sd int64) {
	if !t.begin() {
		return
	}
	rnd := rand.New(rand.NewSource(sd))
	setProcs(rnd.Intn(5))
	l := newLockLog()
	j := newJitter(rnd.Int63(), rnd.Intn(20))
	l.yield = j
	r, c := 1+rnd.Intn(2), 1+rnd.Intn(2)
	ks := kindsFor(r, c, false)
	kind := ks[rnd.Intn(len(ks))]
	d := make([]int, r*c)
	for i := range d {
		d[i] = rnd.Intn(4)
	}
	inner := build[T](kind, r, c, d, func(i int) T { return T(i) }, 0)
	w := g.NewMutexMatrix[T](&probe[T]{Matrix: inner, enter: l.enter, plainCopies: true})
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	e := func(v T) any { return enc(v, 0, 1) }
	var mu sync.Mutex
	calls := []any{}
	threads := 2 + rnd.Intn(2)
	per := 3
	if threads == 3 {
		per = 2 + rnd.Intn(2)
	}
	plans := make([][]func(), threads)
	inc := func(x T) T {
		j.point()
		if x == T(3) {
			return T(0)
		}
		return x + T(1)
	}
	rec := func(op string, r1, c1 int, v any, f func() any) func() {
		return func() {
			a := tick()
			res := f()
			b := tick()
			mu.Lock()
			calls = append(calls, J{"op": op, "r": r1, "c": c1, "v": v, "res": res, "inv": a, "ret": b})
			mu.Unlock()
		}
	}
	for th := range plans {
		for i := 0; i < per; i++ {
			r1, c1, v := rnd.Intn(r), rnd.Intn(c), rnd.Intn(4)
			var f func()
			switch x := rnd.Intn(14); {
			case x < 3:
				f = rec("Set", r1, c1, v, func() any { w.Set(r1, c1, T(v)); return []any{} })
			case x < 6:
				f = rec("Update", r1, c1, 0, func() any {
					var seen T
					w.Update(r1, c1, func(x T) T { seen = x; return inc(x) })
					return []any{e(seen)}
				})
			case x < 8:
				f = rec("At", r1, c1, 0, func() any { return []any{e(w.At(r1, c1))} })
			case x < 9:
				f = rec("Clear", 0, 0, 0, func() any { w.Clear(); return []any{} })
			case x < 10:
				f = rec("Values", 0, 0, 0, func() any { return []any{w.Values()} })
			case x < 11:
				f = rec("Enum", 0, 0, 0, func() any { return lockCall[T](w, "Enum", 0, 0, 0, nil, nil, e) })
			case x < 12:
				f = rec("Enum", 0, 0, 0, func() any { return project[T]("", w.Copy(), e).D })
			case x < 13:
				f = rec("Row", r1, 0, 0, func() any { return lockCall[T](w, "RowsAtToArray", r1, 0, 0, nil, nil, e) })
			default: // every step of a map is a call of its own
				f = func() {
					it := w.Map()
					for n := 0; n < 2 && it.HasNext(); n++ {
						a := tick()
						var r2, c2 int
						var seen T
						it.Map(func(r, c int, x T) T { r2, c2, seen = r, c, x; return inc(x) })
						b := tick()
						mu.Lock()
						calls = append(calls, J{"op": "Update", "r": r2, "c": c2, "v": 0, "res": []any{e(seen)}, "inv": a, "ret": b})
						mu.Unlock()
					}
				}
			}
			plans[th] = append(plans[th], f)
		}
	}
	start := project[T](kind, inner, e)
	out := guard(func() {
		var wg sync.WaitGroup
		bad := int32(0)
		for th, p := range plans {
			p, th := p, th
			wg.Add(1)
			go func() {
				defer wg.Done()
				l.as(th + 1)
				if inline(func() {
					for _, f := range p {
						f()
					}
				}) != "ok" {
					atomic.StoreInt32(&bad, 1)
				}
			}()
		}
		wg.Wait()
		if bad != 0 {
			panic("a call failed")
		}
	})
	if out == "hang" {
		out = "stuck"
	}
	ev := J{"op": "hist", "k": kind, "t": typeName[T](), "out": out, "locked": out == "ok" && locked(w), "ev": append([]any{}, l.ev...), "start": start, "hist": calls, "end": M{D: []any{}}}
	if out == "ok" {
		ev["end"] = project[T](kind, inner, e)
	}
	t.emit(ev)
	if out == "stuck" {
		t.close()
		exit(0)
	}
}
