package main

// C20: the supplied operators, monoids and zero values

import (
	"math"
	"math/rand"
	"sync"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/operators"
	"github.com/rossmerr/graphblas/unaryop"
)

type namedOp[T constraints.Number] struct {
	pkg, f string
	op     binaryop.BinaryOp[T]
}
type namedCmp[T constraints.Number] struct {
	f  string
	op binaryop.BinaryOpToBool[T]
}

func binOps[T constraints.Number]() []namedOp[T] {
	return []namedOp[T]{
		{"operators", "first", operators.FirstArgument[T]()}, {"binaryop", "first", binaryop.FirstArgument[T]()},
		{"operators", "second", operators.SecondArgument[T]()}, {"binaryop", "second", binaryop.SecondArgument[T]()},
		{"operators", "min", operators.Minimum[T]()}, {"binaryop", "min", binaryop.Minimum[T]()},
		{"operators", "max", operators.Maximum[T]()}, {"binaryop", "max", binaryop.Maximum[T]()},
		{"operators", "add", operators.Addition[T]()}, {"binaryop", "add", binaryop.Addition[T]()},
		{"operators", "sub", operators.Subtraction[T]()}, {"binaryop", "sub", binaryop.Subtraction[T]()},
		{"operators", "mul", operators.Multiplication[T]()}, {"binaryop", "mul", binaryop.Multiplication[T]()},
		{"operators", "div", operators.Division[T]()}, {"binaryop", "div", binaryop.Division[T]()},
		{"binaryop", "lin", binaryop.NewBinaryOp(func(x, y T) T { return x + x + y })},
	}
}

func cmpOps[T constraints.Number]() []namedCmp[T] {
	return []namedCmp[T]{
		{"eq", operators.Equal[T]()}, {"ne", operators.NotEqual[T]()}, {"gt", operators.GreaterThan[T]()},
		{"lt", operators.LessThan[T]()}, {"ge", operators.GreaterThanOrEqual[T]()}, {"le", operators.LessThanOrEqual[T]()},
		{"twice", binaryop.NewBinaryOpToBool(func(x, y T) bool { return x+x == y })},
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func operatorsDriver(t *tracer) {
	rnd := rand.New(rand.NewSource(seed))
	tables[int8](t)
	tables[uint8](t)
	per := 8
	if thorough {
		per = 80
	}
	for i := 0; i < per; i++ {
		pairs[int](t, rnd, i)
		pairs[int8](t, rnd, i)
		pairs[int16](t, rnd, i)
		pairs[int32](t, rnd, i)
		pairs[int64](t, rnd, i)
		pairs[uint](t, rnd, i)
		pairs[uint8](t, rnd, i)
		pairs[uint16](t, rnd, i)
		pairs[uint32](t, rnd, i)
		pairs[uint64](t, rnd, i)
		pairs[uintptr](t, rnd, i)
		pairs[float32](t, rnd, i)
		pairs[float64](t, rnd, i)
	}
	for i := 0; i < per/2; i++ {
		sharedOps[int](t)
		sharedOps[uint8](t)
		sharedOps[float64](t)
	}
	booleans(t)
}

// crowd applies f from several goroutines at once, over and over, to pairs whose first or
// second argument repeats, and returns every different outcome
func crowd[T constraints.Number, R comparable](f func(x, y T) R) (xs, ys []T, res []R) {
	type app struct {
		x, y T
		r    R
	}
	const workers, rounds = 8, 1500
	seen := make([]map[app]bool, workers)
	bad := make([]any, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		seen[w] = map[app]bool{}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() { bad[w] = recover() }()
			<-start
			for i := 0; i < rounds; i++ {
				x, y := T(1+(i+w/4)%5), T(1+w%4)
				if w%2 == 1 {
					x, y = y, x
				}
				seen[w][app{x, y, f(x, y)}] = true
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for _, b := range bad {
		if b != nil {
			panic(b)
		}
	}
	all := map[app]bool{}
	for _, s := range seen {
		for a := range s {
			all[a] = true
		}
	}
	for a := range all {
		xs, ys, res = append(xs, a.x), append(ys, a.y), append(res, a.r)
	}
	return
}

// sharedOps: one operator in the hands of eight goroutines
func sharedOps[T constraints.Number](t *tracer) {
	ty := typeName[T]()
	ar := arFor(ty)
	in := 1
	if isFloat(ty) {
		in = 4
	}
	list := func(vs []T, sc int) []any {
		out := []any{}
		for _, v := range vs {
			out = append(out, enc(v, ar, sc))
		}
		return out
	}
	for _, o := range binOps[T]() {
		if !t.begin() {
			continue
		}
		ev := J{"op": "Pairs", "pkg": o.pkg, "f": o.f, "t": ty, "ar": ar, "uns": isUnsigned(ty), "shared": true}
		record(t, ev, func() {
			apply := o.op.Apply
			if o.f == "div" { // exact quotients
				apply = func(x, y T) T { return o.op.Apply(x*y, y) }
			}
			xs, ys, res := crowd(apply)
			out := in
			if isFloat(ty) && (o.f == "mul" || o.f == "div") {
				out = 16
			}
			if o.f == "div" {
				for i := range xs {
					xs[i] *= ys[i]
				}
			}
			ev["xs"], ev["ys"], ev["res"] = list(xs, in), list(ys, in), list(res, out)
		})
	}
	for _, o := range cmpOps[T]() {
		if !t.begin() {
			continue
		}
		ev := J{"op": "CmpPairs", "f": o.f, "t": ty, "ar": ar, "uns": isUnsigned(ty), "shared": true}
		record(t, ev, func() {
			xs, ys, res := crowd(o.op.Apply)
			is := []int{}
			for _, r := range res {
				is = append(is, b2i(r))
			}
			ev["xs"], ev["ys"], ev["res"] = list(xs, in), list(ys, in), is
		})
	}
	un := unaryop.NewUnaryOp(func(x T) T { return x + x })
	if t.begin() {
		ev := J{"op": "Unary", "f": "double", "t": ty, "ar": ar, "uns": isUnsigned(ty), "shared": true}
		record(t, ev, func() {
			xs, _, res := crowd(func(x, y T) T { return un.Apply(x) })
			ev["xs"], ev["res"] = list(xs, in), list(res, in)
		})
	}
	// one monoid folding several streams at once
	for k, m := range []binaryop.MonoID[T]{g.DefaultMonoIDAddition[T](), g.DefaultMonoIDMaximum[T]()} {
		if !t.begin() {
			continue
		}
		ev := J{"op": "Monoid", "f": []string{"add", "max"}[k], "t": ty, "ar": ar, "uns": isUnsigned(ty), "shared": true, "zero": enc(m.Zero(), ar, in)}
		record(t, ev, func() {
			var mu sync.Mutex
			var wg sync.WaitGroup
			runs := []any{}
			for w := 0; w < 6; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					var s []T
					for i := 0; i < 12+w; i++ {
						s = append(s, T(1+(i*7+w)%5))
					}
					done, ch := make(chan struct{}), make(chan T)
					out := m.Reduce(done, ch)
					for _, v := range s {
						ch <- v
					}
					close(done)
					r := <-out
					mu.Lock()
					defer mu.Unlock()
					runs = append(runs, J{"xs": list(s, in), "res": enc(r, ar, in)})
				}(w)
			}
			wg.Wait()
			ev["runs"] = runs
		})
	}
}

func record(t *tracer, ev J, f func()) {
	ev["out"] = guard(f)
	t.emit(ev)
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
}

// tables: every pair of arguments of an 8-bit type
func tables[T constraints.Number](t *tracer) {
	ty := typeName[T]()
	arg := func(i int) T { return T(int64(i - 128)) }
	for _, o := range binOps[T]() {
		for x := 0; x < 256; x++ {
			if !t.begin() {
				continue
			}
			res := make([]int, 256)
			record(t, J{"op": "Table", "pkg": o.pkg, "f": o.f, "t": ty, "uns": isUnsigned(ty), "x": x - 128, "res": res}, func() {
				for y := 0; y < 256; y++ {
					if o.f == "div" && y == 128 {
						continue
					}
					res[y] = int(raw(o.op.Apply(arg(x), arg(y))))
				}
			})
		}
	}
	for _, o := range cmpOps[T]() {
		for x := 0; x < 256; x++ {
			if !t.begin() {
				continue
			}
			res := make([]int, 256)
			record(t, J{"op": "CmpTable", "f": o.f, "t": ty, "uns": isUnsigned(ty), "x": x - 128, "res": res}, func() {
				for y := 0; y < 256; y++ {
					res[y] = b2i(o.op.Apply(arg(x), arg(y)))
				}
			})
		}
	}
}

// argument: boundaries and random bits of a type; for floating point, numbers whose
// sums, differences and products are exact
func argument[T constraints.Number](rnd *rand.Rand, ty string, special bool, f string) T {
	if isFloat(ty) {
		if special && rnd.Intn(3) == 0 {
			v := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.NaN(), 0}[rnd.Intn(5)]
			return T(v)
		}
		if special {
			return T(float64(rnd.Intn(129)-64) / 4)
		}
		b := 52 // integers up to the precision of the type, or half of it for products
		if ty == "float32" {
			b = 23
		}
		if f == "mul" || f == "div" {
			b /= 2
		} else if f == "lin" || f == "twice" {
			b -= 2
		}
		x := rnd.Int63n(1 << uint(b-rnd.Intn(b)))
		if rnd.Intn(6) == 0 {
			x = 1<<uint(b) - int64(rnd.Intn(3))
		}
		if rnd.Intn(2) == 0 {
			x = -x
		}
		return T(x)
	}
	b := uint(bitsOf(ty))
	var x uint64
	switch rnd.Intn(6) {
	case 0:
		x = uint64(rnd.Intn(7) - 3)
	case 1: // around powers of two
		x = uint64(1)<<uint(rnd.Intn(int(b))) + uint64(rnd.Intn(3)-1)
	case 2:
		x = -(uint64(1)<<uint(rnd.Intn(int(b))) + uint64(rnd.Intn(3)-1))
	case 3:
		x = uint64(1)<<(b-1) - uint64(rnd.Intn(3))
	case 4:
		x = rnd.Uint64() >> uint(rnd.Intn(64))
	default:
		x = rnd.Uint64()
	}
	return fromBits[T](x)
}

func fromBits[T constraints.Number](x uint64) T {
	return T(int64(x))
}

// encF writes whole floating-point numbers as limbs
func encF[T constraints.Number](v T) any {
	f, _ := f64(v)
	if f != math.Trunc(f) || math.Abs(f) >= 1<<62 {
		return [5]int{-1, -1, -1, -1, -1}
	}
	return limbs(uint64(int64(f)), 64)
}

func pairs[T constraints.Number](t *tracer, rnd *rand.Rand, round int) {
	ty := typeName[T]()
	const n = 64
	fl := isFloat(ty)
	special := fl && round%2 == 0
	ar := arFor(ty)
	if fl && !special {
		ar = 164
	}
	e := func(v T, sc int) any {
		if fl && !special {
			return encF(v)
		}
		return enc(v, ar, sc)
	}
	in := 1
	if special {
		in = 4
	}
	args := func(f string) (xs, ys []T) {
		for i := 0; i < n; i++ {
			x, y := argument[T](rnd, ty, special, f), argument[T](rnd, ty, special, f)
			if rnd.Intn(5) == 0 {
				y = x
			}
			if f == "twice" && rnd.Intn(3) == 0 {
				y = x + x
			}
			if f == "div" {
				for y == 0 {
					y = argument[T](rnd, ty, special, f)
				}
				a, _ := f64(x)
				b, _ := f64(y)
				switch {
				case !fl && i%4 == round%4: // by every power of two in turn
					p := uint64(1) << uint((i/4*7+round/4*5)%bitsOf(ty))
					if i%8 >= 4 && !isUnsigned(ty) {
						x = fromBits[T](-uint64(rnd.Int63())>>uint(rnd.Intn(4)) | 1<<63)
						if bitsOf(ty) < 64 {
							x = fromBits[T](uint64(rnd.Int63()) | 1<<uint(bitsOf(ty)-1))
						}
					}
					y = fromBits[T](p)
					if rnd.Intn(5) == 0 {
						y = fromBits[T](-p)
					}
				case special && !(math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0)):
					y = T(float64([]int{1, 2, -2, -4, 4, -1, 1}[rnd.Intn(7)]) / 2)
				case fl && !special: // exact quotients
					x *= y
				}
			}
			xs, ys = append(xs, x), append(ys, y)
		}
		return
	}
	list := func(vs []T, sc int) []any {
		out := []any{}
		for _, v := range vs {
			out = append(out, e(v, sc))
		}
		return out
	}
	// one operator is applied by several goroutines
	spread := func(f func(i int)) {
		var wg sync.WaitGroup
		bad := make(chan any, 4)
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						bad <- r
					}
				}()
				for i := w; i < n; i += 4 {
					f(i)
				}
			}(w)
		}
		wg.Wait()
		select {
		case r := <-bad:
			panic(r)
		default:
		}
	}
	for _, o := range binOps[T]() {
		xs, ys := args(o.f)
		if !t.begin() {
			continue
		}
		out := in
		if special {
			out = map[string]int{"mul": 16, "div": 16}[o.f]
			if out == 0 {
				out = 4
			}
		}
		res := make([]T, n)
		ev := J{"op": "Pairs", "pkg": o.pkg, "f": o.f, "t": ty, "ar": ar, "uns": isUnsigned(ty), "xs": list(xs, in), "ys": list(ys, in)}
		record(t, ev, func() {
			spread(func(i int) { res[i] = o.op.Apply(xs[i], ys[i]) })
			ev["res"] = list(res, out)
		})
	}
	for _, o := range cmpOps[T]() {
		xs, ys := args(o.f)
		if !t.begin() {
			continue
		}
		res := make([]int, n)
		record(t, J{"op": "CmpPairs", "f": o.f, "t": ty, "ar": ar, "uns": isUnsigned(ty), "xs": list(xs, in), "ys": list(ys, in), "res": res}, func() {
			spread(func(i int) { res[i] = b2i(o.op.Apply(xs[i], ys[i])) })
		})
	}
	un := unaryop.NewUnaryOp(func(x T) T { return x + x })
	xs, _ := args("add")
	if t.begin() {
		res := make([]T, n)
		ev := J{"op": "Unary", "f": "double", "t": ty, "ar": ar, "uns": isUnsigned(ty), "xs": list(xs, in)}
		record(t, ev, func() {
			spread(func(i int) { res[i] = un.Apply(xs[i]) })
			ev["res"] = list(res, in)
		})
	}
	if t.begin() {
		xs[0], xs[1] = 0, 1
		var is []bool
		ev := J{"op": "Zero", "t": ty, "ar": ar, "xs": list(xs, in)}
		record(t, ev, func() {
			ev["zero"], ev["default"] = e(g.Zero[T](), in), e(g.Default[T](), in)
			for _, x := range xs {
				is = append(is, g.IsZero(x))
			}
			ev["is"] = is
		})
	}
	for k, m := range []binaryop.MonoID[T]{g.DefaultMonoIDAddition[T](), g.DefaultMonoIDMaximum[T]()} {
		f := []string{"add", "max"}[k]
		var streams [][]T
		streams = append(streams, nil)
		for i := 0; i < 6; i++ {
			var s []T
			for j := 0; j < 1+i*i/2; j++ {
				v := argument[T](rnd, ty, special, f)
				if fl {
					v = T(float64(rnd.Intn(65) - 32))
				}
				if k == 1 && v < 0 {
					v = T(0) - v - T(1)
				}
				s = append(s, v)
			}
			r := append([]T(nil), s...)
			rnd.Shuffle(len(r), func(a, b int) { r[a], r[b] = r[b], r[a] })
			streams = append(streams, s, r)
		}
		if !t.begin() {
			continue
		}
		ev := J{"op": "Monoid", "f": f, "t": ty, "ar": ar, "uns": isUnsigned(ty)}
		runs := []any{}
		record(t, ev, func() {
			ev["zero"] = e(m.Zero(), in)
			for i, s := range streams {
				done, ch := make(chan struct{}), make(chan T, i%3)
				out := m.Reduce(done, ch)
				for _, v := range s {
					ch <- v
				}
				close(done)
				runs = append(runs, J{"xs": list(s, in), "res": e(<-out, in)})
			}
			ev["runs"] = runs
		})
	}
}

func booleans(t *tracer) {
	for _, o := range []struct {
		f  string
		op binaryop.BinaryOp[bool]
	}{{"or", operators.LOR}, {"and", operators.LAND}, {"xor", operators.LXOR}} {
		for i := 0; i < 4; i++ {
			if !t.begin() {
				continue
			}
			x, y := i&1 > 0, i&2 > 0
			ev := J{"op": "Bool", "f": o.f, "x": x, "y": y}
			record(t, ev, func() { ev["res"] = o.op.Apply(x, y) })
		}
	}
	for i := 0; i < 2; i++ {
		if !t.begin() {
			continue
		}
		ev := J{"op": "Bool", "f": "not", "x": i > 0, "y": false}
		record(t, ev, func() { ev["res"] = operators.LogicalInverse.Apply(i > 0) })
	}
	// zero values of types without arithmetic
	if t.begin() {
		ev := J{"op": "Zero", "t": "bool", "ar": 0, "xs": []int{0, 1}}
		record(t, ev, func() {
			ev["zero"], ev["default"], ev["is"] = b2i(g.Zero[bool]()), b2i(g.Default[bool]()), []bool{g.IsZero(false), g.IsZero(true)}
		})
	}
	if t.begin() {
		ev := J{"op": "Zero", "t": "string", "ar": 0, "xs": []int{0, 1, 1}}
		record(t, ev, func() {
			ev["zero"], ev["default"], ev["is"] = len(g.Zero[string]()), len(g.Default[string]()), []bool{g.IsZero(""), g.IsZero("0"), g.IsZero(" ")}
		})
	}
}
