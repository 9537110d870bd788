package main

// Runs single operations on chosen operands and records operands, mask, output
// before and after (C05-C09, C19, C21, and the frame part of C04).

import (
	"context"
	"math"
	"math/rand"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/unaryop"
)

// family of an operation: what the specification computes
var family = map[string]string{
	"Add": "add", "Subtract": "sub", ".Add": "add", ".Subtract": "sub",
	"MxM": "mul", "MxV": "mul", "VxM": "mul", ".Multiply": "mul",
	"EwAddM": "union", "EwAddV": "union", "EwMulM": "inter", "EwMulV": "inter",
	"Apply": "apply", "Negative": "neg", ".Negative": "neg", "Scalar": "scal", ".Scalar": "scal",
	"Transpose": "trans", ".Transpose": "trans", "ToCSR": "trans", "ToCSC": "trans", "TT": "same", "Strassen": "mul",
}

// fresh operations return their result instead of taking an output
func isFresh(op string) bool {
	return op[0] == '.' || op == "Scalar" || op == "Strassen" || op == "ToCSR" || op == "ToCSC" || op == "TT"
}

func isUnary(op string) bool {
	switch family[op] {
	case "apply", "neg", "scal", "trans", "same":
		return true
	}
	return false
}

func needsVectors(op string) bool { return op == "EwAddV" || op == "EwMulV" }

func unaryFn[T constraints.Number](uf string) unaryop.UnaryOp[T] {
	one := T(1)
	switch uf {
	case "inc":
		return unaryop.NewUnaryOp(func(x T) T { return x + one })
	case "zero":
		return unaryop.NewUnaryOp(func(x T) T { var z T; return z })
	case "one":
		return unaryop.NewUnaryOp(func(x T) T { return one })
	case "neg":
		return unaryop.NewUnaryOp(func(x T) T { return -x })
	case "dbl":
		return unaryop.NewUnaryOp(func(x T) T { return x + x })
	case "drop1": // one becomes zero, everything else stays
		return unaryop.NewUnaryOp(func(x T) T {
			if x == one {
				var z T
				return z
			}
			return x
		})
	case "recip": // tells the zeros apart; what has no whole reciprocal stays
		return unaryop.NewUnaryOp(func(x T) T {
			if f, ok := f64(x); ok && (f == 0 || math.IsInf(f, 0)) {
				return T(1 / f)
			}
			return x
		})
	}
	panic("unaryFn " + uf)
}

var unaryFns = []string{"inc", "zero", "one", "neg", "dbl", "drop1"}

// call performs the operation; the result of a fresh one is returned
func call[T constraints.Number](ctx context.Context, op string, s, m g.Matrix[T], mask g.Mask, out g.Matrix[T], uf string, alpha T) g.MatrixLogical[T] {
	switch op {
	case "Add":
		g.Add[T](ctx, s, m, mask, out)
	case "Subtract":
		g.Subtract[T](ctx, s, m, mask, out)
	case "MxM":
		g.MatrixMatrixMultiply[T](ctx, s, m, mask, out)
	case "MxV":
		g.MatrixVectorMultiply[T](ctx, s, m.(g.Vector[T]), mask, out.(g.Vector[T]))
	case "VxM": // the operands are named in the other order
		g.VectorMatrixMultiply[T](ctx, m.(g.Vector[T]), s, mask, out.(g.Vector[T]))
	case "EwAddM":
		g.ElementWiseMatrixAdd[T](ctx, s, m, mask, out)
	case "EwMulM":
		g.ElementWiseMatrixMultiply[T](ctx, s, m, mask, out)
	case "EwAddV":
		g.ElementWiseVectorAdd[T](ctx, s.(g.Vector[T]), m.(g.Vector[T]), mask, out.(g.Vector[T]))
	case "EwMulV":
		g.ElementWiseVectorMultiply[T](ctx, s.(g.Vector[T]), m.(g.Vector[T]), mask, out.(g.Vector[T]))
	case "Apply":
		g.Apply[T](ctx, s, mask, unaryFn[T](uf), out)
	case "Negative":
		g.Negative[T](ctx, s, mask, out)
	case "Transpose":
		g.Transpose[T](ctx, s, mask, out)
	case "Scalar":
		return g.Scalar[T](ctx, s, alpha)
	case "ToCSR":
		return g.TransposeToCSR[T](ctx, s)
	case "ToCSC":
		return g.TransposeToCSC[T](ctx, s)
	case "Strassen":
		return strassen.MultiplyCrossoverPoint[T](ctx, s, m, 1)
	case "TT":
		return s.Transpose().Transpose()
	case ".Add":
		return s.Add(m)
	case ".Subtract":
		return s.Subtract(m)
	case ".Multiply":
		return s.Multiply(m)
	case ".Negative":
		return s.Negative()
	case ".Scalar":
		return s.Scalar(alpha)
	case ".Transpose":
		return s.Transpose()
	default:
		panic("harness: op " + op)
	}
	return nil
}

// ---- masks ----

type obsMask struct {
	kind string
	mask g.Mask
	r, c int
	proj func() []any
}

type funcMask struct {
	r, c int
	sel  []bool
}

func (f *funcMask) Rows() int             { return f.r }
func (f *funcMask) Columns() int          { return f.c }
func (f *funcMask) Element(r, c int) bool { return f.sel[r*f.c+c] }

var nilMask = &obsMask{kind: "nil", proj: func() []any { return []any{} }}

var maskKinds = []string{"nil", "empty", "dn", "csr", "csc", "user", "mutex", "dvn", "sv"}

func numMask[T constraints.Number](kind string, m g.Matrix[T]) *obsMask {
	o := &obsMask{kind: kind, r: m.Rows(), c: m.Columns(), proj: func() []any {
		return project[T]("", m, func(v T) any { return maskVal(v) }).D
	}}
	o.mask = m
	if kind == "mutex" {
		o.mask = g.NewMutexMatrix[T](m)
	}
	return o
}

func maskVal[T constraints.Number](v T) any {
	var z T
	if v == z {
		return 0
	}
	if v < z {
		return -1
	}
	return 1
}

// makeMask builds a mask of some element type; selected cells hold truthy values of either sign
func makeMask(kind string, ty string, r, c int, sel []int) *obsMask {
	switch kind {
	case "nil":
		return nilMask
	case "empty":
		z := make([]any, r*c)
		for i := range z {
			z[i] = 0
		}
		return &obsMask{kind: kind, mask: g.NewEmptyMask(r, c), r: r, c: c, proj: func() []any { return z }}
	case "user":
		f := &funcMask{r: r, c: c}
		for _, x := range sel {
			f.sel = append(f.sel, x != 0)
		}
		return &obsMask{kind: kind, mask: f, r: r, c: c, proj: func() []any {
			out := []any{}
			for _, b := range f.sel {
				if b {
					out = append(out, 1)
				} else {
					out = append(out, 0)
				}
			}
			return out
		}}
	}
	switch ty {
	case "int8":
		return mk1[int8](kind, r, c, sel)
	case "uint16":
		return mk1[uint16](kind, r, c, sel)
	case "float32":
		return mk1[float32](kind, r, c, sel)
	case "int":
		return mk1[int](kind, r, c, sel)
	}
	return mk1[float64](kind, r, c, sel)
}

func mk1[T constraints.Number](kind string, r, c int, sel []int) *obsMask {
	under := kind
	if kind == "mutex" {
		under = []string{"dn", "csr", "csc"}[(r*7+c*3+len(sel))%3]
	}
	m := mkNum[T](under, r, c)
	for i, x := range sel {
		if x != 0 {
			v := T(1)
			if x < 0 {
				v = -v
			} else if f, ok := any(&v).(*float64); ok && i%3 == 0 {
				*f = 0.25
			}
			m.Set(i/c, i%c, v)
		}
	}
	return numMask[T](kind, m)
}

func projMask(m *obsMask) M { return M{K: m.kind, R: m.r, C: m.c, D: m.proj()} }

// ---- cases ----

// numCase is one operation with its operands, given as plain integers
type numCase struct {
	Op    string `json:"op"`
	SR    int    `json:"sr"`
	SC    int    `json:"sc"`
	S     []int  `json:"s"`
	MR    int    `json:"mr"`
	MC    int    `json:"mc"`
	M     []int  `json:"m"`
	OR    int    `json:"or"`
	OC    int    `json:"oc"`
	Old   []int  `json:"old"`
	Mask  []int  `json:"mask"` // empty: no mask
	Uf    string `json:"uf"`
	Alpha int    `json:"alpha"`
	Alias string `json:"alias"`

	win *windows // the object is larger: this is what is seen of it
}

type combo struct {
	ty                string
	sk, mk, ok, maskK string
	maskTy            string
	wide              bool
	spec              int    // floating-point operands with NaN, infinities and negative zero: which table
	alias             string // what is the same object: "", "s" (the output), "m", "sm" (s is m), "all" (s is m is out), "maskS", "maskM", "sK" (out is s, mask is m), "mK", "sS" (out and mask are s), "mM", "aS" (all four are s)
	how               int    // how operands are built
	frame             bool
	maskR, maskC      int // shape of the mask when it is not the output's (mismatch)
	win               *windows
}

// windows: the operands are windows on objects of many rows or columns (see gap.go).
// Axes: rows of s, columns of s, columns of the second operand of a product.
type windows struct {
	n   [3]int
	idx [3][]int
}

func (w *windows) axes(op string, which byte) (int, int) {
	f := family[op]
	switch {
	case which == 's', which == 'm' && f != "mul", which == 'o' && f != "mul" && f != "trans":
		return 0, 1
	case which == 'm':
		return 1, 2
	case f == "mul":
		return 0, 2
	}
	return 1, 0
}

// look shows the window of an object
func look[T constraints.Number](w *windows, op string, which byte, m g.MatrixLogical[T]) g.MatrixLogical[T] {
	if w == nil {
		return m
	}
	a, b := w.axes(op, which)
	return newGap[T](m, w.idx[a], w.idx[b], w.n[a], w.n[b])
}

func buildIn[T constraints.Number](w *windows, op string, which byte, kind string, r, c int, d []int, val func(int) T, how int) g.Matrix[T] {
	if w == nil {
		return build[T](kind, r, c, d, val, how)
	}
	a, b := w.axes(op, which)
	m := mkNum[T](kind, w.n[a], w.n[b])
	for p := range d {
		i := p
		if how%2 == 1 {
			i = len(d) - 1 - p
		}
		if d[i] != 0 {
			m.Set(w.idx[a][i/c], w.idx[b][i%c], val(d[i]))
		}
	}
	return m
}

type windowMask struct {
	r, c   int
	ri, ci []int
	sel    []int
}

func (f *windowMask) Rows() int    { return f.r }
func (f *windowMask) Columns() int { return f.c }
func (f *windowMask) Element(r, c int) bool {
	r, c = place(f.ri, r), place(f.ci, c)
	return r >= 0 && c >= 0 && f.sel[r*len(f.ci)+c] != 0
}

func (w *windows) mask(op, kind string, sel []int) *obsMask {
	a, b := w.axes(op, 'o')
	proj := []any{}
	for _, x := range sel {
		proj = append(proj, x)
	}
	o := &obsMask{kind: kind, r: len(w.idx[a]), c: len(w.idx[b]), proj: func() []any { return proj }}
	if kind == "user" {
		o.mask = &windowMask{w.n[a], w.n[b], w.idx[a], w.idx[b], sel}
		return o
	}
	m := buildIn[int8](w, op, 'o', kind, o.r, o.c, sel, func(i int) int8 { return int8(i) }, 0)
	v := newGap[int8](m, w.idx[a], w.idx[b], w.n[a], w.n[b])
	o.mask, o.proj = m, func() []any { return project[int8]("", v, func(v int8) any { return maskVal(v) }).D }
	return o
}

// valTable maps the plain integers of a case to values of the type
func valTable[T constraints.Number](wide bool) func(int) T {
	t := typeName[T]()
	if !wide {
		if isFloat(t) {
			return func(i int) T { return T(i) / T(2) }
		}
		return func(i int) T { return T(int64(i)) }
	}
	return func(i int) T { return wideVal[T](i) }
}

// specVal: the special values take the place of some of the plain ones
func specVal[T constraints.Number](table int) func(int) T {
	negZero := math.Copysign(0, -1)
	tables := []map[int]float64{
		{1: 1, -1: -1, 2: 2, -2: -2, 3: math.Inf(1), -3: math.Inf(-1), 4: math.NaN(), -4: negZero},
		{1: math.Inf(1), -1: math.Inf(-1), 2: math.NaN(), -2: negZero, 3: 1, -3: -1, 4: 2, -4: -2},
		{1: math.NaN(), -1: 1, 2: math.Inf(-1), -2: math.Inf(1), 3: negZero, -3: -1, 4: 2, -4: 0},
		{2: math.Inf(1), -2: math.Inf(-1)}, // no NaN
	}
	return func(i int) T {
		var z T
		if f, ok := tables[table-1][i]; ok {
			switch p := any(&z).(type) {
			case *float32:
				*p = float32(f)
			case *float64:
				*p = f
			}
			return z
		}
		return T(i)
	}
}

func wideVal[T constraints.Number](i int) T {
	if i == 0 {
		return 0
	}
	t := typeName[T]()
	b := bitsOf(t)
	var x uint64
	switch i {
	case 1:
		x = 1
	case -1:
		x = ^uint64(0)
	case 2:
		x = 1 << uint(b-1)
	case 3:
		x = 1<<uint(b-1) - 1
	case 4:
		x = 1<<uint(b/2) + 1
	default:
		x = uint64(i)*0x9E3779B97F4A7C15 ^ uint64(i)<<7
	}
	return T(int64(x))
}

func build[T constraints.Number](kind string, r, c int, d []int, val func(int) T, how int) g.Matrix[T] {
	if how%5 == 4 && r > 0 && c > 0 {
		vs := make([]T, len(d))
		for i := range d {
			vs[i] = val(d[i])
		}
		return fromArrayNum[T](kind, r, c, vs).(g.Matrix[T])
	}
	m := mkNum[T](kind, r, c)
	n := r * c
	// histories: forward, backward, strided, with values overwritten and removed again
	for p := 0; p < n; p++ {
		i := p
		switch how % 5 {
		case 1:
			i = n - 1 - p
		case 2:
			i = (p*7 + 3) % n
			if n%7 == 0 {
				i = p
			}
		case 3:
			m.Set(i/c, i%c, T(1))
		}
		if d[i] != 0 || how%5 == 3 {
			m.Set(i/c, i%c, val(d[i]))
		}
	}
	return m
}

// curKind tags the events of a driver that shares its trace with others
var curKind string

func runCase[T constraints.Number](t *tracer, k numCase, cb combo) {
	if !t.begin() {
		return
	}
	ty := typeName[T]()
	val := valTable[T](cb.wide)
	ar, sc := 0, 1
	if b := bitsOf(ty); b == 8 || b == 16 {
		ar = b
	} else if cb.wide && b > 0 {
		ar = 100 + b
	}
	if isFloat(ty) {
		sc = 2
	}
	outSc := sc
	if family[k.Op] == "mul" || family[k.Op] == "scal" {
		outSc = sc * sc
	}
	if cb.spec > 0 && isFloat(ty) {
		val, ar, sc, outSc = specVal[T](cb.spec), 1, 1, 1
		if k.Op == "Apply" && cb.how%3 > 0 {
			k.Uf = "recip"
		}
	}
	e := func(v T) any { return enc(v, ar, sc) }
	eo := func(v T) any { return enc(v, ar, outSc) }
	es := e // negative zero matters to an operator only
	if k.Uf == "recip" && k.Op == "Apply" {
		es = func(v T) any {
			if f, ok := f64(v); ok && f == 0 && math.Signbit(f) {
				return negZVal
			}
			return enc(v, ar, sc)
		}
	}
	ev := J{"op": k.Op, "f": family[k.Op], "fresh": isFresh(k.Op), "t": ty, "ar": ar, "sc": sc, "uf": k.Uf, "alias": cb.alias}
	if curKind != "" {
		ev["kind"] = curKind
	}
	users := 0 // operands and output that are of the user's own types
	if t.n%6 == 2 && cb.win == nil {
		users = 1 + t.n/6%7
	}
	mine := func(bit int, m g.Matrix[T]) g.Matrix[T] {
		if users&bit == 0 {
			return m
		}
		return own[T](m, t.n/42+bit)
	}
	s := mine(1, buildIn[T](cb.win, k.Op, 's', cb.sk, k.SR, k.SC, k.S, val, cb.how))
	var m, out g.Matrix[T]
	if !isUnary(k.Op) {
		switch cb.alias {
		case "sm", "all", "aS":
			m = s
		default:
			m = mine(2, buildIn[T](cb.win, k.Op, 'm', cb.mk, k.MR, k.MC, k.M, val, cb.how/5))
		}
	}
	if !isFresh(k.Op) {
		switch cb.alias {
		case "s", "all", "sK", "sS", "aS":
			out = s
		case "m", "mK", "mM":
			out = m
		default:
			out = mine(4, buildIn[T](cb.win, k.Op, 'o', cb.ok, k.OR, k.OC, k.Old, val, cb.how/25))
		}
	}
	mask := nilMask
	if out != nil {
		mr, mc := out.Rows(), out.Columns()
		if cb.maskR != 0 || cb.maskC != 0 {
			mr, mc = cb.maskR, cb.maskC
		}
		switch {
		case cb.win != nil:
			if len(k.Mask) > 0 {
				mask = cb.win.mask(k.Op, cb.maskK, k.Mask)
			}
		case cb.alias == "maskS" || cb.alias == "mK" || cb.alias == "sS" || cb.alias == "aS":
			mask = numMask[T]("alias", s)
		case cb.alias == "maskM" || cb.alias == "sK" || cb.alias == "mM":
			mask = numMask[T]("alias", m)
		case len(k.Mask) > 0 || cb.maskK == "empty" || cb.maskR > 0:
			mask = makeMask(cb.maskK, cb.maskTy, mr, mc, k.Mask)
		}
	}
	alpha := val(k.Alpha)
	past := "ok"
	if t.n%4 == 1 && cb.win == nil && cb.maskR == 0 {
		o := out
		if out != nil && t.n%8 == 1 {
			o = mkNum[T](kindOf[T](out), out.Rows(), out.Columns())
		}
		mk := mask.mask
		if t.n/8%7 == 0 && out != nil {
			mk = &failMask{mk, out.Rows(), out.Columns(), t.n / 56 % 5}
		}
		past = warm[T](t.n/8, func() { call[T](pastCtx(t.n/4), k.Op, s, m, mk, o, k.Uf, alpha) }, some[T](s, m, out)...)
	}
	ev["alpha"] = e(alpha)
	none := M{K: "none", D: []any{}}
	ev["s"], ev["m"], ev["old"] = project[T](cb.sk, look[T](cb.win, k.Op, 's', s), es), none, none
	if m != nil {
		ev["m"] = project[T](cb.mk, look[T](cb.win, k.Op, 'm', m), e)
	}
	if out != nil {
		ev["old"] = project[T](cb.ok, look[T](cb.win, k.Op, 'o', out), eo)
	}
	ev["mask"] = projMask(mask)
	var ret g.MatrixLogical[T]
	ev["out"] = past
	if past != "hang" {
		ev["out"] = guard(func() { ret = call[T](anyCtx(t.n), k.Op, s, m, mask.mask, out, k.Uf, alpha) })
	}
	ev["new"] = none
	if ev["out"] == "hang" {
		t.emit(ev)
		t.close()
		exit(0)
	}
	var res g.MatrixLogical[T]
	seen := guard(func() {
		if out != nil {
			res = look[T](cb.win, k.Op, 'o', out)
			ev["new"] = project[T](cb.ok, look[T](cb.win, k.Op, 'o', out), eo)
		} else if ret != nil && ev["out"] == "ok" {
			res = look[T](cb.win, k.Op, 'o', ret)
			ev["new"] = project[T](kindOf[T](ret), look[T](cb.win, k.Op, 'o', ret), eo)
		}
		if cb.frame {
			ev["s2"], ev["m2"] = project[T](cb.sk, look[T](cb.win, k.Op, 's', s), es), none
			if m != nil {
				ev["m2"] = project[T](cb.mk, look[T](cb.win, k.Op, 'm', m), e)
			}
			ev["mask2"] = projMask(mask)
		}
	})
	if seen == "ok" && res != nil && len(spill(res)) > 0 {
		seen = "spilt"
	}
	if seen != "ok" {
		ev["out"] = "unreadable"
		if cb.frame {
			ev["s2"], ev["m2"], ev["mask2"] = none, none, none
		}
	}
	t.emit(ev)
}

func runCaseT(t *tracer, k numCase, cb combo) {
	switch cb.ty {
	case "int":
		runCase[int](t, k, cb)
	case "int8":
		runCase[int8](t, k, cb)
	case "int16":
		runCase[int16](t, k, cb)
	case "int32":
		runCase[int32](t, k, cb)
	case "int64":
		runCase[int64](t, k, cb)
	case "uint":
		runCase[uint](t, k, cb)
	case "uint8":
		runCase[uint8](t, k, cb)
	case "uint16":
		runCase[uint16](t, k, cb)
	case "uint32":
		runCase[uint32](t, k, cb)
	case "uint64":
		runCase[uint64](t, k, cb)
	case "uintptr":
		runCase[uintptr](t, k, cb)
	case "float32":
		runCase[float32](t, k, cb)
	case "float64":
		runCase[float64](t, k, cb)
	}
}

// kinds an operand of the shape can have
func kindsFor(r, c int, vectorOnly bool) []string {
	if vectorOnly {
		return vecKinds
	}
	if c == 1 {
		return append(append([]string{}, matKinds...), vecKinds...)
	}
	return matKinds
}

var maskTypes = []string{"float64", "int8", "uint16", "float32", "int"}

// comboFor picks the n-th combination of formats for a case
func comboFor(k numCase, n int, ty string) combo {
	pick := func(ks []string) string {
		x := ks[n%len(ks)]
		n /= len(ks)
		return x
	}
	cb := combo{ty: ty}
	vs := needsVectors(k.Op)
	cb.sk = pick(kindsFor(k.SR, k.SC, vs))
	if !isUnary(k.Op) {
		cb.mk = pick(kindsFor(k.MR, k.MC, vs || k.Op == "MxV" || k.Op == "VxM"))
	}
	if !isFresh(k.Op) {
		cb.ok = pick(kindsFor(k.OR, k.OC, vs || k.Op == "MxV" || k.Op == "VxM"))
	}
	mks := []string{"csr", "dn", "user", "csc", "mutex"}
	if k.OC == 1 {
		mks = append(mks, "dvn", "sv")
	}
	cb.maskK = pick(mks)
	cb.maskTy = pick(maskTypes)
	cb.alias = k.Alias
	switch k.Alias {
	case "s", "sK", "sS":
		cb.ok = cb.sk
	case "m", "mK", "mM":
		cb.ok = cb.mk
	case "sm":
		cb.mk = cb.sk
	case "all", "aS":
		cb.mk, cb.ok = cb.sk, cb.sk
	}
	return cb
}

func maskRand(r *rand.Rand, n int, style int) []int {
	sel := make([]int, n)
	any := false
	for i := range sel {
		switch style {
		case 0: // all
			sel[i] = 1
		case 1:
			sel[i] = r.Intn(2)
		case 2:
			sel[i] = r.Intn(3) - 1
		default:
			if r.Intn(4) == 0 {
				sel[i] = 1
			}
		}
		any = any || sel[i] != 0
	}
	return sel
}

func randVals(r *rand.Rand, n int, density int, lim int) []int {
	d := make([]int, n)
	for i := range d {
		if r.Intn(4) < density {
			d[i] = r.Intn(2*lim+1) - lim
		}
	}
	return d
}

// randCase builds operands of fitting shapes
func randCase(r *rand.Rand, op string, lim int) numCase {
	big := r.Intn(14) == 0
	return randCaseDim(r, op, lim, func() int {
		if big {
			return 1 + r.Intn(13)
		}
		switch r.Intn(12) {
		case 0:
			return 1
		case 1:
			return 4 + r.Intn(3)
		case 2:
			return r.Intn(3) * r.Intn(2)
		}
		return 1 + r.Intn(4)
	})
}

// largeDims gives dimensions around the sizes at which implementations like to switch methods
func largeDims(r *rand.Rand, vec bool) func() int {
	if vec {
		return func() int { return []int{17, 33, 64, 65, 100, 129, 200, 260}[r.Intn(8)] }
	}
	if r.Intn(2) == 0 {
		d := []int{9, 16, 17, 24, 32, 33}[r.Intn(6)]
		return func() int { return d }
	}
	i, long := -1, r.Intn(3)
	return func() int {
		i++
		if i == long {
			return []int{17, 33, 65, 100, 130}[r.Intn(5)]
		}
		return []int{1, 2, 3, 5, 9, 17}[r.Intn(6)]
	}
}

func randCaseDim(r *rand.Rand, op string, lim int, dim func() int) numCase {
	k := numCase{Op: op, SR: dim(), SC: dim(), Uf: unaryFns[r.Intn(len(unaryFns))], Alpha: r.Intn(7) - 3}
	switch family[op] {
	case "mul":
		k.MR, k.MC = k.SC, dim()
		if op == "MxV" || op == "VxM" {
			k.MC = 1
		}
		k.OR, k.OC = k.SR, k.MC
	case "trans":
		k.OR, k.OC = k.SC, k.SR
	default:
		if needsVectors(op) {
			k.SC = 1
		}
		if !isUnary(op) {
			k.MR, k.MC = k.SR, k.SC
		}
		k.OR, k.OC = k.SR, k.SC
	}
	k.S = randVals(r, k.SR*k.SC, 1+r.Intn(4), lim)
	k.M = randVals(r, k.MR*k.MC, 1+r.Intn(4), lim)
	if family[op] == "inter" || family[op] == "union" {
		for i := range k.M {
			if r.Intn(2) == 0 {
				k.M[i] = k.S[i]
			}
		}
	}
	if !isFresh(op) {
		k.Old = randVals(r, k.OR*k.OC, r.Intn(4), lim)
		if st := r.Intn(6); st < 4 {
			k.Mask = maskRand(r, k.OR*k.OC, st)
		}
	} else {
		k.OR, k.OC = 0, 0
	}
	return k
}

func isWideType(ty string) bool { b := bitsOf(ty); return b == 32 || b == 64 }

// opsDriver: specification-generated small cases in rotating formats and types, then random larger ones
func opsDriver(t *tracer, ops []string, frame bool) {
	var gen []numCase
	readGen(&gen)
	rnd := rand.New(rand.NewSource(seed))
	per := 5
	if thorough {
		per = 24
	}
	n := int(seed) * 7919
	for i, k := range gen {
		if !contains(ops, k.Op) {
			continue
		}
		for j := 0; j < per; j++ {
			n++
			ty := numTypes[(i*per+j)%13]
			cb := comboFor(k, n*31+j, ty)
			cb.how, cb.frame = n, frame
			if isFloat(ty) && n%2 == 0 {
				cb.spec = 1 + n/2%3
			}
			runCaseT(t, k, cb)
		}
	}
	if contains(ops, "Transpose") {
		logicalTransposes(t, frame)
	}
	sizeSweep(t, rand.New(rand.NewSource(seed*977)), ops, frame)
	reps := 40
	if thorough {
		reps = 400
	}
	for _, op := range ops {
		for _, ty := range numTypes {
			for i := 0; i < reps; i++ {
				wide := isWideType(ty) && i%3 == 0
				lim := 4
				if bitsOf(ty) == 8 && i%2 == 0 {
					lim = 127
				} else if bitsOf(ty) == 16 && i%2 == 0 {
					lim = 32767
				} else if wide {
					lim = 40
				}
				k := randCase(rnd, op, lim)
				if i%10 == 3 && !isUnary(op) && op != "MxV" && op != "VxM" && k.SR == k.MR && k.SC == k.MC { // one object as both operands
					k.Alias = "sm"
				}
				if wide {
					// extremes are the small indices of the wide table
					for _, d := range [][]int{k.S, k.M, k.Old} {
						for x := range d {
							if rnd.Intn(2) == 0 {
								d[x] = d[x] % 5
							}
						}
					}
				}
				cb := comboFor(k, rnd.Intn(1<<30), ty)
				cb.wide, cb.how, cb.frame = wide, rnd.Intn(125), frame
				if isFloat(ty) && i%2 == 0 {
					cb.spec = 1 + rnd.Intn(3)
				}
				if len(k.Mask) == 0 && i%5 == 0 {
					cb.maskK = "empty"
				}
				runCaseT(t, k, cb)
			}
		}
		for i := 0; i < reps/4; i++ { // large operands
			ty := numTypes[rnd.Intn(13)]
			k := randCaseDim(rnd, op, 3, largeDims(rnd, needsVectors(op)))
			cb := comboFor(k, rnd.Intn(1<<30), ty)
			cb.how, cb.frame = rnd.Intn(125), frame
			runCaseT(t, k, cb)
		}
	}
	t.huge(func() { gapSweep(t, rand.New(rand.NewSource(seed*979)), ops, frame) })
}

// bigShapes: sizes beyond the thresholds at which implementations like to switch methods, rows,
// columns and (products) columns of the second operand
func bigShapes(op string) [][3]int {
	switch {
	case needsVectors(op):
		return [][3]int{{1100, 1, 1}, {300, 1, 1}, {520, 1, 1}, {512, 1, 1}, {256, 1, 1}, {128, 1, 1}, {65, 1, 1}}
	case op == "MxV" || op == "VxM":
		return [][3]int{{70, 70, 1}, {2, 600, 1}, {600, 2, 1}, {40, 130, 1}, {33, 34, 1}, {3, 256, 1}, {256, 3, 1}, {64, 64, 1}, {5, 512, 1}, {9, 129, 1}}
	case family[op] == "mul":
		return [][3]int{{36, 34, 40}, {300, 2, 3}, {2, 300, 3}, {3, 2, 300}, {1, 600, 1}, {67, 3, 65}, {35, 35, 35}, {34, 34, 34}, {2, 256, 2}, {64, 3, 64}, {3, 64, 5}, {32, 32, 32}, {256, 2, 2}, {2, 2, 256}, {1, 129, 3}}
	}
	return [][3]int{{36, 34, 0}, {34, 70, 0}, {65, 67, 0}, {66, 66, 0}, {300, 3, 0}, {2, 300, 0}, {1, 600, 0}, {600, 1, 0}, {64, 64, 0}, {32, 32, 0}, {2, 256, 0}, {256, 2, 0}, {1, 512, 0}, {128, 3, 0}, {100, 100, 0}}
}

// sizeSweep runs every operation on large operands, the first one in every format
func sizeSweep(t *tracer, rnd *rand.Rand, ops []string, frame bool) {
	rounds := 1
	if thorough {
		rounds = 6
	}
	for _, op := range ops {
		for i := 0; i < rounds; i++ {
			for _, sh := range bigShapes(op) {
				for j := range kindsFor(sh[0], sh[1], needsVectors(op)) {
					dims := sh
					x := -1
					dim := func() int {
						x++
						return dims[x]
					}
					ty := numTypes[rnd.Intn(13)]
					k := randCaseDim(rnd, op, 50, dim)
					cb := comboFor(k, rnd.Intn(1<<20)*60+j, ty)
					cb.how, cb.frame = rnd.Intn(125), frame
					runCaseT(t, k, cb)
				}
			}
		}
	}
}

// logicalTransposes covers the formats that are no operands of arithmetic: dense
// matrices and vectors of any type, booleans included
func logicalTransposes(t *tracer, frame bool) {
	rnd := rand.New(rand.NewSource(seed * 31))
	n := 10
	if thorough {
		n = 80
	}
	for i := 0; i < n; i++ {
		logicalTranspose[bool](t, rnd, frame, func(x int) bool { return x != 0 }, mkLogicalBool, kindOfBool, []string{"dm", "dm", "dv"})
		logicalTranspose[int](t, rnd, frame, func(x int) int { return x }, mkLogicalNum[int], kindOf[int], logicalKinds)
		logicalTranspose[int8](t, rnd, frame, func(x int) int8 { return int8(x) }, mkLogicalNum[int8], kindOf[int8], logicalKinds)
		logicalTranspose[int16](t, rnd, frame, func(x int) int16 { return int16(x) }, mkLogicalNum[int16], kindOf[int16], logicalKinds)
		logicalTranspose[int32](t, rnd, frame, func(x int) int32 { return int32(x) }, mkLogicalNum[int32], kindOf[int32], logicalKinds)
		logicalTranspose[uint](t, rnd, frame, func(x int) uint { return uint(x) }, mkLogicalNum[uint], kindOf[uint], logicalKinds)
		logicalTranspose[uint64](t, rnd, frame, func(x int) uint64 { return uint64(x) }, mkLogicalNum[uint64], kindOf[uint64], logicalKinds)
		logicalTranspose[uintptr](t, rnd, frame, func(x int) uintptr { return uintptr(x) }, mkLogicalNum[uintptr], kindOf[uintptr], logicalKinds)
		logicalTranspose[float32](t, rnd, frame, func(x int) float32 { return float32(x) }, mkLogicalNum[float32], kindOf[float32], logicalKinds)
		logicalTranspose[float64](t, rnd, frame, func(x int) float64 { return float64(x) }, mkLogicalNum[float64], kindOf[float64], logicalKinds)
	}
}

var logicalKinds = []string{"dm", "dm", "dv", "csr", "csc", "dn", "sv", "dvn"}

func logicalTranspose[T constraints.Type](t *tracer, rnd *rand.Rand, frame bool, val func(int) T, mk func(string, int, int) g.MatrixLogical[T], kind func(any) string, kinds []string) {
	ty := typeName[T]()
	sk, ok := kinds[rnd.Intn(len(kinds))], kinds[rnd.Intn(len(kinds))]
	r, c := 1+rnd.Intn(4), 1+rnd.Intn(4)
	if isVecKind(sk) {
		c = 1
	}
	if isVecKind(ok) {
		r = 1
	}
	fresh := rnd.Intn(3) == 0
	pos := func(n int) []int {
		d := make([]int, n)
		for i := range d {
			if rnd.Intn(3) > 0 {
				d[i] = 1 + rnd.Intn(3)
			}
		}
		return d
	}
	sd, od := pos(r*c), pos(r*c)
	mask := nilMask
	if !fresh && rnd.Intn(2) == 0 {
		mask = makeMask("user", "", c, r, maskRand(rnd, r*c, 1))
	}
	if !t.begin() {
		return
	}
	fill := func(m g.MatrixLogical[T], d []int) {
		for i, x := range d {
			if x != 0 {
				m.Set(i/m.Columns(), i%m.Columns(), val(x))
			}
		}
	}
	ar := 0
	if b := bitsOf(ty); b == 8 || b == 16 {
		ar = b
	}
	e := func(v T) any { return enc(v, ar, 1) }
	s := mk(sk, r, c)
	fill(s, sd)
	none := M{K: "none", D: []any{}}
	ev := J{"op": "LTranspose", "f": "trans", "fresh": fresh, "t": ty, "ar": ar, "sc": 1, "uf": "", "alias": "", "alpha": 0,
		"s": project[T](sk, s, e), "m": none, "mask": projMask(mask), "old": none, "new": none}
	var out g.MatrixLogical[T]
	if !fresh {
		out = mk(ok, c, r)
		fill(out, od)
		ev["old"] = project[T](ok, out, e)
	}
	ev["out"] = guard(func() {
		if fresh {
			out = s.Transpose()
			ok = kind(out)
		} else {
			g.Transpose[T](anyCtx(t.n), s, mask.mask, out)
		}
	})
	if ev["out"] == "ok" {
		if guard(func() { ev["new"] = project[T](ok, out, e) }) != "ok" {
			ev["out"] = "unreadable"
		}
	}
	if frame {
		ev["s2"], ev["m2"], ev["mask2"] = project[T](sk, s, e), none, projMask(mask)
	}
	t.emit(ev)
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// aliasDriver: the same object in several places of a call
func aliasDriver(t *tracer) {
	var gen []numCase
	readGen(&gen)
	rnd := rand.New(rand.NewSource(seed))
	per := 4
	reps := 25
	if thorough {
		per, reps = 24, 250
	}
	n := int(seed) * 104729
	for i, k := range gen {
		for j := 0; j < per; j++ {
			n++
			cb := comboFor(k, n*37+j, numTypes[(i*per+j)%13])
			cb.how = n
			if isFloat(cb.ty) && n%2 == 0 {
				cb.spec = 1 + n/2%3
			}
			runCaseT(t, k, cb)
		}
	}
	for _, op := range []string{"Add", "Subtract", "MxM", "MxV", "VxM", "EwAddM", "EwAddV", "EwMulM", "EwMulV", "Apply", "Negative", "Transpose"} {
		as := []string{"s", "m", "sm", "all", "maskS", "maskM", "sK", "mK", "sS", "mM", "aS"}
		switch {
		case op == "MxV" || op == "VxM":
			as = []string{"m", "mM"}
		case isUnary(op):
			as = []string{"s", "maskS", "sS"}
		}
		for _, a := range as {
			for _, sh := range bigShapes(op)[:3] { // large
				if f := family[op]; f == "trans" || f == "mul" {
					sh[0], sh[2] = 34, 34
					sh[1] = 34
					if op != "MxM" {
						sh[2] = 1
					}
				}
				x := -1
				k := randCaseDim(rnd, op, 50, func() int {
					x++
					return sh[x]
				})
				k.Alias = a
				if len(a) == 5 || len(a) == 2 && a != "sm" {
					k.Mask = nil
				}
				cb := comboFor(k, rnd.Intn(1<<30), numTypes[rnd.Intn(13)])
				cb.how = rnd.Intn(125)
				runCaseT(t, k, cb)
			}
			for _, ty := range numTypes {
				for i := 0; i < reps; i++ {
					k := randCase(rnd, op, 4)
					d := 2 + rnd.Intn(4)
					if rnd.Intn(40) == 0 { // large
						k = randCaseDim(rnd, op, 4, largeDims(rnd, needsVectors(op)))
						d = []int{9, 16, 17, 33}[rnd.Intn(4)]
					}
					if family[op] == "mul" || family[op] == "trans" { // square, so that every alias fits
						k.SR, k.SC, k.OR, k.OC = d, d, d, d
						if family[op] == "mul" {
							k.MR, k.MC = d, d
							if op != "MxM" {
								k.MC, k.OC = 1, 1
							}
						}
						k.S, k.M, k.Old = randVals(rnd, k.SR*k.SC, 3, 4), randVals(rnd, k.MR*k.MC, 3, 4), randVals(rnd, k.OR*k.OC, 3, 4)
						if k.Mask != nil {
							k.Mask = maskRand(rnd, k.OR*k.OC, 1+rnd.Intn(3))
						}
					}
					k.Alias = a
					if len(a) == 5 || len(a) == 2 && a != "sm" {
						k.Mask = nil
					}
					cb := comboFor(k, rnd.Intn(1<<30), ty)
					cb.how, cb.wide = rnd.Intn(125), isWideType(ty) && i%4 == 0
					if isFloat(ty) && i%2 == 0 {
						cb.spec = 1 + rnd.Intn(3)
					}
					runCaseT(t, k, cb)
				}
			}
		}
	}
}

var opsOf = map[string][]string{
	"c06": {"Add", "Subtract", ".Add", ".Subtract"},
	"c07": {"MxM", "MxV", "VxM", ".Multiply"},
	"c08": {"EwAddM", "EwAddV", "EwMulM", "EwMulV"},
	"c09": {"Apply", "Negative", ".Negative", "Scalar", ".Scalar", "Transpose", ".Transpose", "ToCSR", "ToCSC", "TT"},
}

// gapSweep runs every operation on windows of compressed objects with very many rows or columns
func gapSweep(t *tracer, rnd *rand.Rand, ops []string, frame bool) {
	rounds := 6
	if thorough {
		rounds = 60
	}
	for _, op := range ops {
		for i := 0; i < rounds; i++ {
			w := &windows{}
			dims := []int{}
			long := i % 2 // which axis
			if family[op] == "mul" {
				long = 1
			}
			if needsVectors(op) {
				long = 0
			}
			for a := range w.n {
				d := 1 + rnd.Intn(3)
				w.n[a], w.idx[a] = d, all(d)
				switch {
				case a == 1 && needsVectors(op), a == 2 && (op == "MxV" || op == "VxM"):
					d = 1
					w.n[a], w.idx[a] = 1, all(1)
				case a == long:
					w.n[a] = []int{66000, 70000, 1<<17 + 3}[rnd.Intn(3)]
					w.idx[a] = window(rnd, w.n[a], 5+rnd.Intn(3))
					d = len(w.idx[a])
				}
				dims = append(dims, d)
			}
			if family[op] != "mul" && !needsVectors(op) && i%3 == 2 { // cells by the thousands of millions, some with numbers equal in 16 or 32 bits
				a := rnd.Intn(2)
				w.n[a], w.n[1-a] = 140000, 1<<16
				base := rnd.Intn(9000)
				w.idx[a] = []int{base, base + 1<<16, base + 1<<17 - 2*rnd.Intn(2)}
				w.idx[1-a] = window(rnd, 1<<16, 3)
				dims = []int{3, 3, dims[2]}
			}
			x := -1
			k := randCaseDim(rnd, op, 20, func() int { x++; return dims[x] })
			cb := comboFor(k, rnd.Intn(1<<30), numTypes[rnd.Intn(13)])
			kind := func(cols int, vec bool) string {
				if vec || cols == 1 && rnd.Intn(2) == 0 {
					return "sv"
				}
				return []string{"csr", "csc"}[rnd.Intn(2)]
			}
			vec := needsVectors(op)
			col := func(which byte) int { _, b := w.axes(op, which); return w.n[b] }
			cb.sk, cb.mk = kind(col('s'), vec), kind(col('m'), vec || op == "MxV" || op == "VxM")
			cb.ok = kind(col('o'), vec || op == "MxV" || op == "VxM")
			cb.maskK = []string{"csr", "csc", "user"}[rnd.Intn(3)]
			cb.how, cb.frame, cb.win = rnd.Intn(125), frame, w
			if family[op] == "mul" && cb.sk == "csc" && rnd.Intn(2) == 0 {
				cb.sk = "csr"
			}
			runCaseT(t, k, cb)
		}
	}
}
