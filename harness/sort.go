package main

// C18: sorting and comparing rune matrices

import (
	"context"
	"math/rand"
	gosort "sort"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/sort"
)

// buildLogical is build for every kind, also those without arithmetic
func buildLogical[T constraints.Number](kind string, r, c int, d []int, val func(int) T, how int) g.MatrixLogical[T] {
	if kind != "dm" && kind != "dv" {
		return build[T](kind, r, c, d, val, how)
	}
	if how%5 == 4 && r > 0 && c > 0 {
		vs := make([]T, len(d))
		for i := range d {
			vs[i] = val(d[i])
		}
		return fromArrayNum[T](kind, r, c, vs)
	}
	m := mkLogicalNum[T](kind, r, c)
	for p := range d {
		i := p
		if how%5 == 1 {
			i = len(d) - 1 - p
		}
		if how%5 == 3 {
			m.Set(i/c, i%c, T(1))
		}
		m.Set(i/c, i%c, val(d[i]))
	}
	return m
}

func allKindsFor(c int) []string {
	ks := append([]string{"dm"}, matKinds...)
	if c == 1 {
		ks = append(append(ks, "dv"), vecKinds...)
	}
	return ks
}

// boundaries of the encodings of code points, and some in between
var codePoints = []int{1, 9, 'a', 'b', 'z', 0x7f, 0x80, 0xe9, 0x100, 0x3b1, 0x7ff, 0x800, 0x4e2d, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}

// alphabet: n code points in ascending order, for the values 0 .. n-1
func alphabet(rnd *rand.Rand, n int, zero bool) []int {
	out := []int{}
	for len(out) < n {
		p := codePoints[rnd.Intn(len(codePoints))]
		if rnd.Intn(4) == 0 {
			p = 1 + rnd.Intn(0xd7ff)
		}
		dup := false
		for _, x := range out {
			dup = dup || x == p
		}
		if !dup {
			out = append(out, p)
		}
	}
	gosort.Ints(out)
	if zero {
		out[0] = 0
	}
	return out
}

func sortDriver(t *tracer) {
	var gen []rrefCase
	readGen(&gen)
	rnd := rand.New(rand.NewSource(seed))
	per, reps := 4, 2500
	if thorough {
		per, reps = 24, 30000
	}
	n := int(seed)
	var prev rrefCase
	for _, k := range gen {
		for i := 0; i < per; i++ {
			n++
			al := alphabet(rnd, 3, i%4 > 0)
			sortRun(t, k, al, n)
			// compared with another matrix of the same shape
			o := k
			if prev.R == k.R && prev.C == k.C && i%3 == 0 {
				o = prev
			} else {
				o.A = nearly(rnd, k.A, 3)
			}
			compareRun(t, k, o, al, n)
		}
		prev = k
	}
	bigSorts(t, rnd)
	longTexts(t, rnd)
	for i := 0; i < reps; i++ {
		n++
		k := rrefCase{R: 1 + rnd.Intn(6), C: 1 + rnd.Intn(6)}
		if i%12 == 0 {
			k.R, k.C = 1+rnd.Intn(14), 1+rnd.Intn(4)
		}
		if i%6 == 1 {
			k.C = 1
		}
		if i%80 == 7 { // large
			k.R, k.C = 1+rnd.Intn(45), 1+rnd.Intn(4)
			if rnd.Intn(2) == 0 {
				k.R, k.C = k.C, k.R
			}
		}
		q := 2 + rnd.Intn(8)
		al := alphabet(rnd, q, rnd.Intn(3) > 0)
		k.A = make([]int, k.R*k.C)
		den := 1 + rnd.Intn(4)
		for j := range k.A {
			if rnd.Intn(4) < den {
				k.A[j] = rnd.Intn(q)
			}
		}
		for j := rnd.Intn(3); j > 0; j-- { // repeated rows and columns, common prefixes
			x, y, w := rnd.Intn(k.R), rnd.Intn(k.R), rnd.Intn(k.C+1)
			copy(k.A[x*k.C:x*k.C+w], k.A[y*k.C:y*k.C+w])
			x, y, w = rnd.Intn(k.C), rnd.Intn(k.C), rnd.Intn(k.R+1)
			for r := 0; r < w; r++ {
				k.A[r*k.C+x] = k.A[r*k.C+y]
			}
		}
		sortRun(t, k, al, n)
		o := k
		o.A = nearly(rnd, k.A, q)
		compareRun(t, k, o, al, n)
	}
}

// bigSorts: many lines in ascending, descending or no order, or with the smallest one last
func bigSorts(t *tracer, rnd *rand.Rand) {
	n := int(seed) * 17
	for _, lines := range []int{30, 60, 110} {
		for style := 0; style < 4; style++ {
			for width := 1; width <= 3; width++ {
				for axis := 0; axis < 2; axis++ {
					al := alphabet(rnd, 64, true)
					k := rrefCase{R: lines, C: width, A: make([]int, lines*width)}
					at := func(l, x int) *int { return &k.A[l*width+x] }
					if axis == 1 {
						k.R, k.C = width, lines
						at = func(l, x int) *int { return &k.A[x*lines+l] }
					}
					for l := 0; l < lines; l++ {
						for x := 0; x < width; x++ {
							v := rnd.Intn(64)
							switch style {
							case 0:
								v = 63 - l*63/lines
							case 1:
								v = 1 + l*62/lines
								if l == lines-1 {
									v = 0
								}
							case 2:
								v = l * 63 / lines
								if x < width-1 {
									v = 5
								}
							}
							*at(l, x) = v
						}
					}
					// the numbers that choose the axis and, rotating, the formats
					ks := len(allKindsFor(k.C))
					n++
					sortRun(t, k, al, (2*n+axis)*ks+rnd.Intn(ks))
					o := k
					o.A = append([]int(nil), k.A...)
					o.A[len(o.A)-1-rnd.Intn(3)] = rnd.Intn(64)
					compareRun(t, k, o, al, rnd.Intn(10000))
				}
			}
		}
	}
}

// longTexts: few long lines that differ only near their end
func longTexts(t *tracer, rnd *rand.Rand) {
	n := int(seed) * 29
	for _, d := range [][2]int{{3, 900}, {2, 2500}, {1, 3000}, {3000, 1}, {900, 3}, {60, 50}, {4, 300}} {
		for style := 0; style < 8; style++ {
			al := alphabet(rnd, 8, style%2 == 0)
			k := rrefCase{R: d[0], C: d[1], A: make([]int, d[0]*d[1])}
			line := k.C
			for j := range k.A {
				k.A[j] = rnd.Intn(8) * (rnd.Intn(3) / 2)
				if j >= line && k.R < 10 { // repeat the line above
					k.A[j] = k.A[j-line]
				}
				if k.C < 10 && j%k.C > 0 {
					k.A[j] = k.A[j-1]
				}
			}
			for r := 0; r < k.R && k.R < 10; r++ {
				k.A[(r+1)*k.C-1-rnd.Intn(3)] = rnd.Intn(8)
			}
			for c := 0; c < k.C && k.C < 10; c++ {
				k.A[len(k.A)-1-c] = rnd.Intn(8)
			}
			ks := len(allKindsFor(k.C))
			n++
			if k.R < 10 || k.C < 10 {
				axis := 0
				if k.C < 10 {
					axis = 1
				}
				if style < 4 {
					sortRun(t, k, al, (2*n+axis)*ks+rnd.Intn(ks))
				}
			}
			o := k
			o.A = append([]int(nil), k.A...)
			if style > 0 {
				o.A[len(o.A)-1-rnd.Intn(3)] = rnd.Intn(8)
			}
			compareRun(t, k, o, al, rnd.Intn(10000))
		}
	}
}

// nearly: the same values with a few changes
func nearly(rnd *rand.Rand, a []int, q int) []int {
	b := append([]int(nil), a...)
	for j := rnd.Intn(3); j > 0 && len(b) > 0; j-- {
		x, y := rnd.Intn(len(b)), rnd.Intn(len(b))
		switch rnd.Intn(3) {
		case 0:
			b[x] = rnd.Intn(q)
		case 1:
			b[x], b[y] = b[y], b[x]
		case 2:
			b[x] = 0
		}
	}
	return b
}

func sortCtx(n int) context.Context {
	if n%3 == 0 {
		return g.NewContext(context.Background(), g.NonBlocking)
	}
	return context.Background()
}

func sortRun(t *tracer, k rrefCase, al []int, n int) {
	if !t.begin() {
		return
	}
	val := func(i int) int32 { return int32(al[i]) }
	ks := allKindsFor(k.C)
	kind := ks[n%len(ks)]
	axis := []string{"rows", "columns"}[n/len(ks)%2]
	m := buildLogical[int32](kind, k.R, k.C, k.A, val, n/7)
	if n%11 == 2 {
		m = ownLogical[int32](m, contains(sparseKinds, kind), n/11)
	}
	if n%4 == 1 {
		warm[int32](n/4, func() { sort.BubbleRow(pastCtx(n/4), m); sort.BubbleColumns(sortCtx(n), m) }, m)
	}
	e := func(v int32) any { return int(v) }
	a := project[int32](kind, m, e)
	ev := J{"op": "Sort", "axis": axis, "a": a, "after": a, "res": a}
	var x g.MatrixRune
	ev["out"] = guard(func() {
		if axis == "rows" {
			x = sort.BubbleRow(sortCtx(n), m)
		} else {
			x = sort.BubbleColumns(sortCtx(n), m)
		}
	})
	if ev["out"] == "ok" {
		ev["out"] = guard(func() {
			ev["res"] = project[int32](kind, x, e)
			ev["after"] = project[int32](kind, m, e)
		})
	}
	t.emit(ev)
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
}

func compareRun(t *tracer, k, o rrefCase, al []int, n int) {
	if !t.begin() {
		return
	}
	val := func(i int) int32 { return int32(al[i]) }
	ks := allKindsFor(k.C)
	ka, kb := ks[n%len(ks)], ks[n/len(ks)%len(ks)]
	a := buildLogical[int32](ka, k.R, k.C, k.A, val, n/3)
	b := buildLogical[int32](kb, o.R, o.C, o.A, val, n/11)
	if n%11 == 2 {
		a = ownLogical[int32](a, contains(sparseKinds, ka), n/11)
	}
	if n/11%3 == 1 {
		b = ownLogical[int32](b, contains(sparseKinds, kb), n/33)
	}
	if n%19 == 0 {
		b = a
	}
	if n%4 == 1 {
		warm[int32](n/4, func() { g.Compare(pastCtx(n/4), a, b); g.String(pastCtx(n/4+1), []g.MatrixRune{b, a}[n/4%2]) }, a, b)
	}
	e := func(v int32) any { return int(v) }
	ev := J{"op": "Compare", "a": project[int32](ka, a, e), "b": project[int32](kb, b, e)}
	ctx := sortCtx(n)
	str := func(m g.MatrixLogical[int32]) []int {
		out := []int{}
		for _, p := range g.String(ctx, m) {
			out = append(out, int(p))
		}
		return out
	}
	ev["ab"], ev["ba"], ev["less"], ev["greater"], ev["sa"], ev["sb"] = 0, 0, false, false, []int{}, []int{}
	ev["out"] = guard(func() {
		ev["ab"], ev["ba"] = g.Compare(ctx, a, b), g.Compare(ctx, b, a)
		ev["less"], ev["greater"] = g.Less(ctx, a, b), g.Greater(ctx, a, b)
		ev["sa"], ev["sb"] = str(a), str(b)
	})
	ev["a2"], ev["b2"] = project[int32](ka, a, e), project[int32](kb, b, e)
	t.emit(ev)
	if ev["out"] == "hang" {
		t.close()
		exit(0)
	}
}
