package main

import (
	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

// probe is a matrix of the user's own: it delegates to another one and reports
// every access.  enter is called before and the function it returns after.
type probe[T constraints.Number] struct {
	g.Matrix[T]
	enter       func(op string) func()
	plainCopies bool // copies are not watched
}

func (p *probe[T]) At(r, c int) T                { defer p.enter("At")(); return p.Matrix.At(r, c) }
func (p *probe[T]) Set(r, c int, v T)            { defer p.enter("Set")(); p.Matrix.Set(r, c, v) }
func (p *probe[T]) Update(r, c int, f func(T) T) { defer p.enter("Update")(); p.Matrix.Update(r, c, f) }
func (p *probe[T]) ColumnsAt(c int) g.VectorLogial[T] {
	defer p.enter("ColumnsAt")()
	return p.Matrix.ColumnsAt(c)
}
func (p *probe[T]) RowsAt(r int) g.VectorLogial[T] {
	defer p.enter("RowsAt")()
	return p.Matrix.RowsAt(r)
}
func (p *probe[T]) RowsAtToArray(r int) []T {
	defer p.enter("RowsAtToArray")()
	return p.Matrix.RowsAtToArray(r)
}
func (p *probe[T]) Clear()                { defer p.enter("Clear")(); p.Matrix.Clear() }
func (p *probe[T]) Values() int           { defer p.enter("Values")(); return p.Matrix.Values() }
func (p *probe[T]) Element(r, c int) bool { defer p.enter("Element")(); return p.Matrix.Element(r, c) }
func (p *probe[T]) Copy() g.Matrix[T]     { defer p.enter("Copy")(); return p.with(p.Matrix.Copy()) }
func (p *probe[T]) CopyLogical() g.MatrixLogical[T] {
	defer p.enter("CopyLogical")()
	return p.Matrix.CopyLogical()
}
func (p *probe[T]) Scalar(a T) g.Matrix[T] { defer p.enter("Scalar")(); return p.Matrix.Scalar(a) }
func (p *probe[T]) Multiply(m g.Matrix[T]) g.Matrix[T] {
	defer p.enter("Multiply")()
	return p.Matrix.Multiply(m)
}
func (p *probe[T]) Add(m g.Matrix[T]) g.Matrix[T] { defer p.enter("Add")(); return p.Matrix.Add(m) }
func (p *probe[T]) Subtract(m g.Matrix[T]) g.Matrix[T] {
	defer p.enter("Subtract")()
	return p.Matrix.Subtract(m)
}
func (p *probe[T]) Negative() g.MatrixLogical[T] {
	defer p.enter("Negative")()
	return p.Matrix.Negative()
}
func (p *probe[T]) Transpose() g.MatrixLogical[T] {
	defer p.enter("Transpose")()
	return p.Matrix.Transpose()
}
func (p *probe[T]) Equal(m g.MatrixLogical[T]) bool {
	defer p.enter("Equal")()
	return p.Matrix.Equal(m)
}
func (p *probe[T]) NotEqual(m g.MatrixLogical[T]) bool {
	defer p.enter("NotEqual")()
	return p.Matrix.NotEqual(m)
}
func (p *probe[T]) Enumerate() g.Enumerate[T] {
	defer p.enter("Enumerate")()
	return &probeEnum[T]{p.Matrix.Enumerate(), p.enter}
}
func (p *probe[T]) Map() g.Map[T] {
	defer p.enter("Map")()
	return &probeMap[T]{p.Matrix.Map(), p.enter}
}
func (p *probe[T]) with(m g.Matrix[T]) g.Matrix[T] {
	if p.plainCopies {
		return m
	}
	return &probe[T]{Matrix: m, enter: p.enter}
}

type probeEnum[T constraints.Number] struct {
	g.Enumerate[T]
	enter func(op string) func()
}

func (p *probeEnum[T]) HasNext() bool       { defer p.enter("HasNext")(); return p.Enumerate.HasNext() }
func (p *probeEnum[T]) Next() (int, int, T) { defer p.enter("Next")(); return p.Enumerate.Next() }

type probeMap[T constraints.Number] struct {
	in    g.Map[T]
	enter func(op string) func()
}

func (p *probeMap[T]) HasNext() bool             { defer p.enter("MapHasNext")(); return p.in.HasNext() }
func (p *probeMap[T]) Map(f func(int, int, T) T) { defer p.enter("MapStep")(); p.in.Map(f) }
