package main

import (
	"fmt"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

// kinds: dm DenseMatrix, dn DenseMatrixNumber, csr, csc, dv DenseVector, dvn DenseVectorNumber, sv SparseVector

var matKinds = []string{"dn", "csr", "csc"}
var vecKinds = []string{"dvn", "sv"}

func isVecKind(k string) bool { return k == "dv" || k == "dvn" || k == "sv" }

func mkNum[T constraints.Number](kind string, r, c int) g.Matrix[T] {
	switch kind {
	case "dn":
		return g.NewDenseMatrixN[T](r, c)
	case "csr":
		return g.NewCSRMatrix[T](r, c)
	case "csc":
		return g.NewCSCMatrix[T](r, c)
	case "dvn":
		return g.NewDenseVectorN[T](r)
	case "sv":
		return g.NewSparseVector[T](r)
	}
	panic("mkNum " + kind)
}

// mkLogical builds any kind, including those that are not g.Matrix
func mkLogicalNum[T constraints.Number](kind string, r, c int) g.MatrixLogical[T] {
	switch kind {
	case "dm":
		return g.NewDenseMatrix[T](r, c)
	case "dv":
		return g.NewDenseVector[T](r)
	}
	return mkNum[T](kind, r, c)
}

func mkLogicalBool(kind string, r, c int) g.MatrixLogical[bool] {
	switch kind {
	case "dm":
		return g.NewDenseMatrix[bool](r, c)
	case "dv":
		return g.NewDenseVector[bool](r)
	}
	panic("mkLogicalBool " + kind)
}

// fromArray builds an object of the kind with the library's array constructors
func fromArrayNum[T constraints.Number](kind string, r, c int, d []T) g.MatrixLogical[T] {
	rows := make([][]T, r)
	for i := range rows {
		rows[i] = append([]T(nil), d[i*c:(i+1)*c]...)
	}
	// the callers' slices have room behind their last element, and something in it
	flat := append(append(make([]T, 0, len(d)+4), d...), T(1), T(2), T(3), T(4))[:len(d)]
	switch kind {
	case "dm":
		return g.NewDenseMatrixFromArray[T](rows)
	case "dn":
		return g.NewDenseMatrixFromArrayN[T](rows)
	case "csr":
		return g.NewCSRMatrixFromArray[T](rows)
	case "csc":
		return g.NewCSCMatrixFromArray[T](rows)
	case "dv":
		return g.NewDenseVectorFromArray[T](flat)
	case "dvn":
		return g.NewDenseVectorFromArrayN[T](flat)
	case "sv":
		return g.NewSparseVectorFromArray[T](flat)
	}
	panic("fromArray " + kind)
}

// kindOf classifies by the concrete Go type, independently of the library's registry
func kindOf[T constraints.Number](m any) string {
	if u, ok := m.(interface{ inner() any }); ok {
		m = u.inner()
	}
	switch m.(type) {
	case *g.DenseMatrix[T]:
		return "dm"
	case *g.DenseMatrixNumber[T]:
		return "dn"
	case *g.CSRMatrix[T]:
		return "csr"
	case *g.CSCMatrix[T]:
		return "csc"
	case *g.DenseVector[T]:
		return "dv"
	case *g.DenseVectorNumber[T]:
		return "dvn"
	case *g.SparseVector[T]:
		return "sv"
	}
	return "other"
}

func kindOfBool(m any) string {
	switch m.(type) {
	case *g.DenseMatrix[bool]:
		return "dm"
	case *g.DenseVector[bool]:
		return "dv"
	}
	return "other"
}

type J = map[string]any

// M is the projection of an object: its dimensions and every cell through At
type M struct {
	K string `json:"k"`
	R int    `json:"r"`
	C int    `json:"c"`
	D []any  `json:"d"`
}

func project[T constraints.Type](k string, m g.MatrixLogical[T], e func(T) any) M {
	p := M{K: k, R: m.Rows(), C: m.Columns(), D: []any{}}
	for r := 0; r < p.R; r++ {
		for c := 0; c < p.C; c++ {
			p.D = append(p.D, e(m.At(r, c)))
		}
	}
	return p
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func assert(b bool, f string, a ...any) {
	if !b {
		panic("harness: " + fmt.Sprintf(f, a...))
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
