package main

import (
	"reflect"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

// Matrices of the user's own: a struct handed over as it is, a pointer to one, and a sparse format
// registered with the library. Each leaves its work to a matrix of the library.

type userVal[T constraints.Number] struct{ g.Matrix[T] }
type userPtr[T constraints.Number] struct{ g.Matrix[T] }
type userSparse[T constraints.Number] struct{ g.Matrix[T] }

type userVec[T constraints.Number] struct{ g.Vector[T] }
type userSparseVec[T constraints.Number] struct{ g.Vector[T] }

type userLogVal[T constraints.Type] struct{ g.MatrixLogical[T] }
type userLogPtr[T constraints.Type] struct{ g.MatrixLogical[T] }
type userLogSparse[T constraints.Type] struct{ g.MatrixLogical[T] }

func init() {
	g.RegisterMatrix(reflect.TypeOf(userSparse[float64]{}))
	g.RegisterMatrix(reflect.TypeOf(userLogSparse[float64]{}))
	g.RegisterMatrix(reflect.TypeOf(userSparseVec[float64]{}))
}

func (u userVal[T]) inner() any       { return u.Matrix }
func (u *userPtr[T]) inner() any      { return u.Matrix }
func (u userSparse[T]) inner() any    { return u.Matrix }
func (u userVec[T]) inner() any       { return u.Vector }
func (u userSparseVec[T]) inner() any { return u.Vector }
func (u userLogVal[T]) inner() any    { return u.MatrixLogical }
func (u *userLogPtr[T]) inner() any   { return u.MatrixLogical }
func (u userLogSparse[T]) inner() any { return u.MatrixLogical }

var sparseKinds = []string{"csr", "csc", "sv"}

// own makes m one of the user's matrices
func own[T constraints.Number](m g.Matrix[T], how int) g.Matrix[T] {
	if m == nil {
		return m
	}
	switch x := m.(type) {
	case *g.SparseVector[T]:
		if how%2 == 0 {
			return userSparseVec[T]{x}
		}
		return &userSparseVec[T]{x}
	case g.Vector[T]:
		if how%2 == 0 {
			return userVec[T]{x}
		}
		return &userVec[T]{x}
	case *g.CSRMatrix[T], *g.CSCMatrix[T]:
		if how%2 == 0 {
			return userSparse[T]{m}
		}
		return &userSparse[T]{m}
	}
	if how/2%2 == 0 {
		return userVal[T]{m}
	}
	return &userPtr[T]{m}
}

func ownLogical[T constraints.Type](m g.MatrixLogical[T], sparse bool, how int) g.MatrixLogical[T] {
	switch {
	case m == nil:
		return m
	case sparse && how%2 == 0:
		return userLogSparse[T]{m}
	case sparse:
		return &userLogSparse[T]{m}
	case how/2%2 == 0:
		return userLogVal[T]{m}
	}
	return &userLogPtr[T]{m}
}
