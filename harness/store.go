package main

// Drives single objects through histories of public calls (C01, C02, C03).

import (
	"math/rand"
	"sort"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

type Step struct {
	Op string `json:"op"`
	R  int    `json:"r"`
	C  int    `json:"c"`
	V  int    `json:"v"`
	N  int    `json:"n"`
	Hn int    `json:"hn"`
	F  []int  `json:"f,omitempty"`
	Th bool   `json:"-"` // the function of an update or of the (N+1)th element of a mapping panics

	W [][]int `json:"w,omitempty"` // bulk: writes row, column, value
}

type Prog struct {
	R     int    `json:"r"`
	C     int    `json:"c"`
	Steps []Step `json:"steps"`
	From  []int  `json:"from,omitempty"`

	BR, BC int   `json:"-"` // a window on an object of these dimensions
	ri, ci []int // the rows and columns of the window
}

type typeEnv[T constraints.Type] struct {
	name   string
	pal    []T
	mk     func(kind string, r, c int) g.MatrixLogical[T]
	from   func(kind string, r, c int, d []T) g.MatrixLogical[T]
	kindOf func(any) string
	copy   func(g.MatrixLogical[T]) (g.MatrixLogical[T], bool)
	zeros  int // zeros written so far
}

type thrown struct{}

// throws runs f, whose own panics pass
func throws(f func()) (out bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(thrown); !ok {
				panic(x)
			}
			out = true
		}
	}()
	f()
	return
}

func copyNum[T constraints.Number](m g.MatrixLogical[T]) (g.MatrixLogical[T], bool) {
	if x, ok := unwrap(m).(interface{ Copy() g.Matrix[T] }); ok {
		return rewrap[T](m, x.Copy()), true
	}
	return nil, false
}

func numEnv[T constraints.Number]() *typeEnv[T] {
	return &typeEnv[T]{name: typeName[T](), pal: palette[T](), mk: mkLogicalNum[T], from: fromArrayNum[T], kindOf: func(m any) string { return kindOf[T](m) }, copy: copyNum[T]}
}

func boolEnv() *typeEnv[bool] {
	return &typeEnv[bool]{name: "bool", pal: palette[bool](), mk: mkLogicalBool, kindOf: kindOfBool}
}

type vecLike[T constraints.Type] interface {
	AtVec(int) T
	SetVec(int, T)
	Length() int
}

type compressed[T constraints.Type] interface {
	SetReturnPointer(r, c int, value T) (int, int)
	UpdateReturnPointer(r, c int, f func(T) T) (int, int)
}

type obsFlags struct{ cells, views, enum bool }

func (e *typeEnv[T]) tok(v T) int { return tokOf(e.pal, v) }

func (e *typeEnv[T]) val(tok int) T {
	if tok < 0 || tok >= len(e.pal) {
		var z T
		return z
	}
	if tok == 0 { // now and then written as -0
		if e.zeros++; e.zeros%3 == 0 {
			return negZero[T]()
		}
	}
	return e.pal[tok]
}

func (e *typeEnv[T]) cells(m g.MatrixLogical[T]) []any {
	return project[T]("", m, func(v T) any { return e.tok(v) }).D
}

// view describes a derived object completely through its own public methods
func (e *typeEnv[T]) view(m g.MatrixLogical[T]) J {
	j := J{"ty": e.kindOf(unwrap(m)), "r": m.Rows(), "c": m.Columns(), "d": e.cells(m), "n": e.values(m), "sz": m.Size(), "sp": g.IsSparseMatrix[T](unwrap(m))}
	if v, ok := m.(vecLike[T]); ok {
		a := []any{}
		for i := 0; i < v.Length(); i++ {
			a = append(a, e.tok(v.AtVec(i)))
		}
		j["a"] = a
		j["va"] = true
	} else {
		j["a"] = []any{}
		j["va"] = false
	}
	return j
}

// values is the number of elements; of a dense object seen through a window, those of the window
func (e *typeEnv[T]) values(m g.MatrixLogical[T]) int {
	in := unwrap(m)
	if in != m && !g.IsSparseMatrix[T](in) {
		return dim(in.Values(), in.Rows()*in.Columns(), m.Rows()*m.Columns())
	}
	return in.Values()
}

func (e *typeEnv[T]) views(m g.MatrixLogical[T]) J {
	rows, cols, arrs, copies := []J{}, []J{}, []any{}, []J{}
	for r := 0; r < m.Rows(); r++ {
		rows = append(rows, e.view(m.RowsAt(r)))
		if huge(m) { // the array would have to hold every column
			continue
		}
		a := []any{}
		for _, v := range m.RowsAtToArray(r) {
			a = append(a, e.tok(v))
		}
		arrs = append(arrs, a)
	}
	for c := 0; c < m.Columns(); c++ {
		cols = append(cols, e.view(m.ColumnsAt(c)))
	}
	copies = append(copies, e.view(m.CopyLogical()))
	if e.copy != nil {
		if cp, ok := e.copy(m); ok {
			copies = append(copies, e.view(cp))
		}
	}
	raw, elem := []any{}, []bool{}
	if x, ok := m.(interface{ RawMatrix() [][]T }); ok {
		for _, row := range x.RawMatrix() {
			a := []any{}
			for _, v := range row {
				a = append(a, e.tok(v))
			}
			raw = append(raw, a)
		}
	}
	if x, ok := m.(g.Mask); ok {
		for i := 0; i < m.Rows()*m.Columns(); i++ {
			elem = append(elem, x.Element(i/m.Columns(), i%m.Columns()))
		}
	}
	return J{"huge": huge(m), "raw": raw, "elem": elem, "self": e.view(m), "rows": rows, "cols": cols, "arrs": arrs, "copies": copies}
}

type enumer[T constraints.Type] interface{ Enumerate() g.Enumerate[T] }
type mapper[T constraints.Type] interface{ Map() g.Map[T] }

// enumerate lists what an iteration yields; hn-1 additional HasNext calls are made before each Next
func (e *typeEnv[T]) enumerate(m g.MatrixLogical[T], hn int, two bool) J {
	limit := 4*m.Rows()*m.Columns() + 8
	list, list2 := [][]int{}, [][]int{}
	over := false
	it := m.Enumerate()
	var it2 g.Enumerate[T]
	if two {
		it2 = m.Enumerate()
	}
	step2 := func() bool {
		if it2 != nil && it2.HasNext() {
			r, c, v := it2.Next()
			list2 = append(list2, []int{r, c, e.tok(v)})
			return true
		}
		return false
	}
	for it.HasNext() {
		for i := 1; i < hn; i++ {
			it.HasNext()
		}
		r, c, v := it.Next()
		list = append(list, []int{r, c, e.tok(v)})
		if len(list)%2 == 1 {
			step2()
		}
		if len(list) > limit {
			over = true
			break
		}
	}
	for step2() {
		if len(list2) > limit {
			over = true
			break
		}
	}
	for i := 0; i < hn; i++ {
		if it.HasNext() {
			over = true
		}
	}
	return J{"list": list, "list2": list2, "two": two, "over": over}
}

func (e *typeEnv[T]) step(m g.MatrixLogical[T], s Step, ev J) {
	s.V = e.tok(e.val(s.V))
	fn := []int{}
	for i, x := range s.F {
		if i < len(e.pal) {
			fn = append(fn, e.tok(e.val(x)))
		}
	}
	s.F = fn
	if len(s.W) > 0 {
		w := [][]int{}
		for _, x := range s.W {
			w = append(w, []int{x[0], x[1], e.tok(e.val(x[2]))})
		}
		s.W = w
	}
	calls, seen := []int{}, []int{}
	threw := false
	f := func(v T) T {
		t := e.tok(v)
		calls = append(calls, t)
		seen = append(seen, e.tok(m.At(s.R, s.C)))
		if s.Th {
			panic(thrown{})
		}
		if t < len(s.F) {
			return e.val(s.F[t])
		}
		return v
	}
	mapCalls := [][]int{}
	over := false
	out := guard(func() {
		switch s.Op {
		case "set":
			m.Set(s.R, s.C, e.val(s.V))
		case "setvec":
			m.(vecLike[T]).SetVec(s.R, e.val(s.V))
		case "setptr":
			m.(compressed[T]).SetReturnPointer(s.R, s.C, e.val(s.V))
		case "upd":
			threw = throws(func() { m.Update(s.R, s.C, f) })
		case "updptr":
			threw = throws(func() { m.(compressed[T]).UpdateReturnPointer(s.R, s.C, f) })
		case "clear":
			m.Clear()
		case "resize":
			ev["ret"] = m.(interface{ ReSize(int) int }).ReSize(s.N)
		case "map":
			limit := 4*m.Rows()*m.Columns() + 8
			it := m.(mapper[T]).Map()
			for it.HasNext() {
				for i := 1; i < s.Hn; i++ {
					it.HasNext()
				}
				if threw = throws(func() {
					it.Map(func(r, c int, v T) T {
						if s.Th && len(mapCalls) == s.N {
							panic(thrown{})
						}
						t := e.tok(v)
						seen = append(seen, e.tok(m.At(r, c)))
						res := v
						if t < len(s.F) {
							res = e.val(s.F[t])
						}
						mapCalls = append(mapCalls, []int{r, c, t, e.tok(res)})
						return res
					})
				}); threw {
					break
				}
				if !s.Th && s.N > 0 && len(mapCalls) == s.N { // abandoned
					break
				}
				if len(mapCalls) > limit {
					over = true
					break
				}
			}
			if (s.N == 0 || s.Th) && !threw && it.HasNext() {
				over = true
			}
		case "bulk":
			for i, w := range s.W {
				v := e.val(w[2])
				switch vec, isVec := m.(vecLike[T]); {
				case i%5 == 4:
					m.Update(w[0], w[1], func(T) T { return v })
				case isVec && i%2 == 0:
					vec.SetVec(w[0], v)
				default:
					m.Set(w[0], w[1], v)
				}
			}
		case "read":
		default:
			panic("unknown op " + s.Op)
		}
	})
	ev["op"], ev["r"], ev["c"], ev["v"], ev["n"], ev["out"] = s.Op, s.R, s.C, s.V, s.N, out
	ev["f"] = s.F
	if s.Op == "bulk" {
		ev["w"] = s.W
	}
	ev["calls"], ev["mcalls"], ev["over"], ev["threw"], ev["seen"] = calls, mapCalls, over, threw, seen
	ev["th"] = s.Th
}

// noMaps leaves mapping out of the histories
var noMaps bool

func isCompressed(kind string) bool { return kind == "csr" || kind == "csc" }
func hasMap(kind string) bool       { return kind != "dm" && kind != "dv" }

// adapt turns a format-independent step into one the kind supports
func adapt(kind string, s Step, k int) Step {
	if s.F != nil && len(s.F) == 0 {
		s.F = nil
	}
	switch s.Op {
	case "set":
		if isVecKind(kind) && k%2 == 0 {
			s.Op = "setvec"
		} else if isCompressed(kind) && k%3 == 0 {
			s.Op = "setptr"
		}
	case "upd":
		if isCompressed(kind) && k%3 == 0 {
			s.Op = "updptr"
		}
	case "map":
		if noMaps || !hasMap(kind) {
			s.Op = "read"
		}
	case "resize":
		if kind != "dv" && kind != "dvn" {
			s.Op = "read"
		}
	}
	return s
}

func (e *typeEnv[T]) run(t *tracer, kind string, p Prog, fl obsFlags, salt int) {
	if !t.begin() {
		return
	}
	var m g.MatrixLogical[T]
	evs := []J{}
	observe := func(ev J) bool {
		o := guard(func() {
			ev["obs"] = M{K: kind, R: m.Rows(), C: m.Columns(), D: e.cells(m)}
			ev["spill"] = spill(m)
			if v, ok := m.(vecLike[T]); ok {
				a := []any{}
				for i := 0; i < v.Length(); i++ {
					a = append(a, e.tok(v.AtVec(i)))
				}
				ev["atvec"] = a
			} else {
				ev["atvec"] = ev["obs"].(M).D
			}
			if fl.views {
				ev["views"] = e.views(m)
			}
			if fl.enum {
				ev["enum"] = e.enumerate(m, 1+(salt+len(evs))%3, (salt+len(evs))%4 == 0)
			}
		})
		ev["look"] = o
		if o != "ok" {
			if ev["obs"] == nil {
				ev["obs"] = M{K: kind, R: -1, C: -1, D: []any{}}
				ev["atvec"] = []any{}
				ev["spill"] = []any{}
			}
			if fl.views {
				ev["views"] = J{"huge": false, "raw": []any{}, "elem": []bool{}, "self": J{}, "rows": []J{}, "cols": []J{}, "arrs": []any{}, "copies": []J{}}
			}
			if fl.enum {
				ev["enum"] = J{"list": []any{}, "list2": []any{}, "two": false, "over": true}
			}
		}
		evs = append(evs, ev)
		return o == "ok"
	}
	ev := J{"op": "new", "r": p.R, "c": p.C, "v": 0, "n": 0, "f": []int{}, "calls": []int{}, "mcalls": []int{}, "over": false, "threw": false, "th": false, "seen": []int{}, "from": []int{}}
	ev["out"] = guard(func() {
		if p.From != nil && e.from != nil && len(p.From) > 0 {
			d := []T{}
			ft := []int{}
			for _, x := range p.From {
				d = append(d, e.val(x))
				ft = append(ft, e.tok(e.val(x)))
			}
			ev["from"] = ft
			m = e.from(kind, p.R, p.C, d)
		} else if p.BR > 0 {
			m = newGap(e.mk(kind, p.BR, p.BC), p.ri, p.ci, p.BR, p.BC)
		} else {
			m = e.mk(kind, p.R, p.C)
		}
	})
	if ev["out"] != "ok" {
		ev["obs"], ev["atvec"], ev["look"], ev["spill"] = M{K: kind, R: -1, C: -1, D: []any{}}, []any{}, "panic", []any{}
		evs = append(evs, ev)
	} else if observe(ev) {
		for i, s := range p.Steps {
			ev := J{}
			s = adapt(kind, s, i+salt)
			e.step(m, s, ev)
			if !observe(ev) || ev["out"] != "ok" {
				break
			}
		}
	}
	t.emit(J{"t": e.name, "k": kind, "ev": evs})
	for _, ev := range evs {
		if ev["out"] == "hang" || ev["look"] == "hang" {
			t.close()
			exit(0)
		}
	}
}

// random history within the shape
func randProg(r *rand.Rand, rows, cols, n, toks int, resizable bool) Prog {
	p := Prog{R: rows, C: cols}
	if r.Intn(4) == 0 && rows > 0 && cols > 0 {
		for i := 0; i < rows*cols; i++ {
			x := 0
			if r.Intn(2) == 0 {
				x = r.Intn(toks)
			}
			p.From = append(p.From, x)
		}
	}
	f := func() []int {
		out := make([]int, toks)
		mode := r.Intn(4)
		for i := range out {
			switch mode {
			case 0:
				out[i] = r.Intn(toks)
			case 1:
				out[i] = 0
			case 2:
				out[i] = (i + 1) % toks
			default:
				if r.Intn(3) == 0 {
					out[i] = 0
				} else {
					out[i] = i
				}
			}
		}
		return out
	}
	cur := rows
	var recent [][2]int
	dense := r.Intn(3) // how often cells are reset
	for i := 0; i < n; i++ {
		if cur == 0 || cols == 0 {
			if resizable {
				cur = 1 + r.Intn(5)
				p.Steps = append(p.Steps, Step{Op: "resize", N: cur})
				continue
			}
			p.Steps = append(p.Steps, Step{Op: []string{"read", "clear", "map"}[r.Intn(3)], Hn: 1, F: f()})
			continue
		}
		s := Step{R: r.Intn(cur), C: r.Intn(cols)}
		if len(recent) > 0 && r.Intn(3) == 0 { // a cell written not long ago
			at := recent[r.Intn(len(recent))]
			if at[0] < cur {
				s.R, s.C = at[0], at[1]
			}
		}
		if recent = append(recent, [2]int{s.R, s.C}); len(recent) > 3 {
			recent = recent[1:]
		}
		switch x := r.Intn(40); {
		case x < 24:
			s.Op = "set"
			if r.Intn(3) > dense {
				s.V = 0
			} else {
				s.V = r.Intn(toks)
			}
		case x < 34:
			s.Op = "upd"
			s.F = f()
			s.Th = r.Intn(8) == 0
		case x < 35:
			s.Op = "clear"
		case x < 38:
			s.Op = "map"
			s.F = f()
			s.Hn = 1 + r.Intn(3)
			if r.Intn(3) == 0 { // abandoned after some elements
				s.N = 1 + r.Intn(4)
			}
			if r.Intn(5) == 0 {
				s.N, s.Th = r.Intn(4), true
			}
		default:
			s.Op = "read"
			if resizable {
				s.Op = "resize"
				s.N = r.Intn(8)
				cur = s.N
			}
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

func (e *typeEnv[T]) kinds(vec bool) []string {
	if e.name == "bool" {
		if vec {
			return []string{"dv"}
		}
		return []string{"dm"}
	}
	if vec {
		return []string{"sv", "dvn", "dv"}
	}
	return []string{"csr", "csc", "dn", "dm"}
}

// storeDriver runs every generated program in every format (element types rotate) and random histories on top
func storeDriver(t *tracer, fl obsFlags) {
	var progs []Prog
	readGen(&progs)
	rnd := rand.New(rand.NewSource(seed))
	types := append(append([]string{}, numTypes...), "bool")
	k := 0
	for i, p := range progs {
		vec := p.C == 1
		for _, kind := range []string{"csr", "csc", "dn", "dm", "sv", "dvn", "dv"} {
			if isVecKind(kind) && !vec {
				continue
			}
			if !thorough && (kind == "dm" || kind == "dv") && i%4 != 0 {
				continue
			}
			ty := types[k%13]
			if (kind == "dm" || kind == "dv") && i%8 == 0 {
				ty = "bool"
			}
			k++
			withStore(ty, func(h storeHandle) { h.run(t, kind, p, fl, k) })
		}
	}
	longRuns(t, fl, rnd)
	bulkRuns(t, fl, rnd)
	n := 12
	if thorough {
		n = 80
	}
	for _, ty := range types {
		ty := ty
		withStore(ty, func(h storeHandle) {
			toks := h.toks()
			for i := 0; i < n; i++ {
				rows, cols := 1+rnd.Intn(4), 1+rnd.Intn(5)
				switch i % 6 {
				case 0:
					rows, cols = 1, 2+rnd.Intn(14)
				case 1:
					rows, cols = 2+rnd.Intn(14), 1
				case 2:
					if i%12 == 2 {
						rows, cols = rnd.Intn(2), rnd.Intn(2)
					}
				}
				for _, kind := range h.kindList(false) {
					p := randProg(rnd, rows, cols, 24, toks, false)
					if rows == 0 || cols == 0 {
						p.From = nil
					}
					h.run(t, kind, p, fl, i)
				}
				for _, kind := range h.kindList(true) {
					l := 1 + rnd.Intn(12)
					h.run(t, kind, randProg(rnd, l, 1, 24, toks, kind != "sv"), fl, i)
				}
			}
		})
	}
	t.huge(func() { gapRuns(t, fl, rnd) })
}

// bulkRuns drives objects of hundreds of rows or columns: many writes between two observations
func bulkRuns(t *tracer, fl obsFlags, rnd *rand.Rand) {
	type shape struct {
		kinds      []string
		rows, cols int
	}
	shapes := []shape{{[]string{"csc", "dn"}, 1000, 2}, {[]string{"csr"}, 2, 1000}, {[]string{"csr", "csc", "dm"}, 300, 3}, {[]string{"csr", "csc", "dn"}, 3, 300},
		{[]string{"sv", "dvn"}, 1500, 1}, {[]string{"sv", "dv"}, 300, 1}, {[]string{"csr", "csc"}, 36, 40}}
	n := 1
	if thorough {
		n = 6
	}
	for i := 0; i < n; i++ {
		for j, sh := range shapes {
			for _, kind := range sh.kinds {
				ty := numTypes[rnd.Intn(13)]
				withStore(ty, func(h storeHandle) {
					h.run(t, kind, bulkProg(rnd, sh.rows, sh.cols, h.toks(), kind == "dvn" || kind == "dv"), fl, i+j)
				})
			}
		}
	}
	// rows and columns with hundreds of elements
	fills := []shape{{[]string{"csr", "dn"}, 1, 640}, {[]string{"csc"}, 640, 1}, {[]string{"csr"}, 2, 330}, {[]string{"csc", "dm"}, 330, 2}, {[]string{"sv", "dvn"}, 700, 1}}
	if fl.views { // every view is recorded after every step
		fills = []shape{{[]string{"csr", "csc", "dn"}, 2, 75}, {[]string{"csr", "csc"}, 75, 2}, {[]string{"csr", "csc"}, 36, 36}, {[]string{"sv", "dvn"}, 140, 1}}
	}
	for i := 0; i < n; i++ {
		for j, sh := range fills {
			for _, kind := range sh.kinds {
				ty := numTypes[rnd.Intn(13)]
				withStore(ty, func(h storeHandle) {
					h.run(t, kind, fillProg(rnd, sh.rows, sh.cols, h.toks()), fl, i+j)
				})
			}
		}
	}
}

// fillProg fills most of the cells, then changes some
func fillProg(r *rand.Rand, rows, cols, toks int) Prog {
	p := Prog{R: rows, C: cols}
	cells := rows * cols
	order := r.Perm(cells)
	if r.Intn(2) == 0 { // as they come
		sort.Ints(order)
	}
	write := func(at []int, zeros int) Step {
		s := Step{Op: "bulk"}
		for _, pos := range at {
			v := 1 + r.Intn(toks-1)
			if r.Intn(6) < zeros {
				v = 0
			}
			s.W = append(s.W, []int{pos / cols, pos % cols, v})
		}
		return s
	}
	keep := cells - r.Intn(3)*cells/16
	some := func() []int { return r.Perm(cells)[:cells/10] }
	f := make([]int, toks)
	for i := range f {
		f[i] = (i + 1) % toks
	}
	p.Steps = []Step{write(order[:keep], 0), write(some(), 1), write(some(), 6), {Op: "map", F: f, Hn: 1}, write(some(), 3),
		{Op: "set", R: r.Intn(rows), C: r.Intn(cols), V: 1}, {Op: "upd", R: r.Intn(rows), C: r.Intn(cols), F: f}, write(r.Perm(cells)[:cells/4], 5)}
	if r.Intn(3) == 0 {
		p.Steps = append(p.Steps, Step{Op: "clear"}, write(order[cells/4:], 0))
	}
	return p
}

func bulkProg(r *rand.Rand, rows, cols, toks int, resizable bool) Prog {
	p := Prog{R: rows, C: cols}
	cells := rows * cols
	writes := func(n, zeros int) Step {
		s := Step{Op: "bulk"}
		style := r.Intn(5)
		start, step := r.Intn(cells), 1+r.Intn(3)
		for i := 0; i < n; i++ {
			pos := 0
			switch style {
			case 0: // near the end, downwards
				pos = cells - 1 - i*step%cells
			case 1: // near the end, upwards
				pos = (cells - n + i + cells) % cells
			case 2: // somewhere, in a row
				pos = (start + i*step) % cells
			case 3: // at both ends
				pos = i / 2
				if i%2 == 0 {
					pos = cells - 1 - pos
				}
				pos = (pos + cells) % cells
			default:
				pos = r.Intn(cells)
			}
			v := 1 + r.Intn(toks-1)
			if r.Intn(4) < zeros {
				v = 0
			}
			row, col := pos/cols, pos%cols
			if r.Intn(2) == 0 && style > 2 { // by columns
				row, col = pos%rows, pos/rows
			}
			s.W = append(s.W, []int{row, col, v})
		}
		return s
	}
	f := make([]int, toks)
	for i := range f {
		f[i] = r.Intn(toks) * r.Intn(2)
	}
	p.Steps = []Step{writes(150, 0), writes(80, 1), writes(100, 3), {Op: "map", F: f, Hn: 1 + r.Intn(2), N: r.Intn(2) * 70}, writes(200, 0),
		{Op: "set", R: r.Intn(rows), C: r.Intn(cols), V: 1}, {Op: "upd", R: rows - 1, C: cols - 1, F: f}, writes(30, 4)}
	if resizable {
		p.Steps = append(p.Steps, Step{Op: "resize", N: rows - 7}, Step{Op: "resize", N: rows})
	}
	if r.Intn(2) == 0 {
		p.Steps = append(p.Steps, Step{Op: "clear"}, writes(140, 1))
	}
	return p
}

// longRuns drives a few large objects, so that searches run over many entries
func longRuns(t *tracer, fl obsFlags, rnd *rand.Rand) {
	steps, n := 100, 1
	if thorough {
		steps, n = 300, 3
	}
	if fl.views { // every view is recorded after every step
		steps /= 8
	}
	for i := 0; i < n; i++ {
		for j, kind := range []string{"csr", "csc", "csr", "csc", "sv", "dn", "dvn"} {
			ty := numTypes[rnd.Intn(13)]
			rows, cols := 5, 17
			switch j {
			case 0:
				rows, cols = 1, 80
			case 1:
				rows, cols = 80, 1
			case 4, 6:
				rows, cols = 90, 1
			}
			withStore(ty, func(h storeHandle) { h.run(t, kind, randProg(rnd, rows, cols, steps, h.toks(), false), fl, j) })
		}
	}
}

type storeHandle interface {
	run(t *tracer, kind string, p Prog, fl obsFlags, salt int)
	toks() int
	kindList(vec bool) []string
}

func (e *typeEnv[T]) toks() int                  { return len(e.pal) }
func (e *typeEnv[T]) kindList(vec bool) []string { return e.kinds(vec) }

var storeHandles = map[string]storeHandle{}

func withStore(ty string, f func(storeHandle)) {
	if len(storeHandles) == 0 {
		storeHandles["int"] = numEnv[int]()
		storeHandles["int8"] = numEnv[int8]()
		storeHandles["int16"] = numEnv[int16]()
		storeHandles["int32"] = numEnv[int32]()
		storeHandles["int64"] = numEnv[int64]()
		storeHandles["uint"] = numEnv[uint]()
		storeHandles["uint8"] = numEnv[uint8]()
		storeHandles["uint16"] = numEnv[uint16]()
		storeHandles["uint32"] = numEnv[uint32]()
		storeHandles["uint64"] = numEnv[uint64]()
		storeHandles["uintptr"] = numEnv[uintptr]()
		storeHandles["float32"] = numEnv[float32]()
		storeHandles["float64"] = numEnv[float64]()
		storeHandles["bool"] = boolEnv()
	}
	f(storeHandles[ty])
}
