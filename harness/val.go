package main

// Value encodings shared by all drivers.  Every value of the library's element
// type is written to the trace as an integer the specification can compute with:
//   token mode: position in a palette (store properties, any type)
//   plain (ar 0): the integer itself times a scale
//   wrap (ar 8/16): two's complement reinterpretation
//   limb (ar 132/164): five 13-bit limbs of the two's complement bits

import (
	"math"

	"github.com/rossmerr/graphblas/constraints"
)

const (
	badVal  = 1000000007
	nanVal  = 1000000009
	pInfVal = 1000000021
	nInfVal = 1000000033
	negZVal = 1000000087
)

var numTypes = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64"}

func typeName[T any]() string {
	var z T
	switch any(z).(type) {
	case int:
		return "int"
	case int8:
		return "int8"
	case int16:
		return "int16"
	case int32:
		return "int32"
	case int64:
		return "int64"
	case uint:
		return "uint"
	case uint8:
		return "uint8"
	case uint16:
		return "uint16"
	case uint32:
		return "uint32"
	case uint64:
		return "uint64"
	case uintptr:
		return "uintptr"
	case float32:
		return "float32"
	case float64:
		return "float64"
	case bool:
		return "bool"
	}
	return "?"
}

func bitsOf(t string) int {
	switch t {
	case "int8", "uint8":
		return 8
	case "int16", "uint16":
		return 16
	case "int32", "uint32":
		return 32
	case "float32", "float64", "bool":
		return 0
	}
	return 64
}

func isFloat(t string) bool    { return t == "float32" || t == "float64" }
func isUnsigned(t string) bool { return t[0] == 'u' }

// raw gives the two's complement reinterpretation of an integer value.
func raw[T any](v T) int64 {
	switch x := any(v).(type) {
	case int:
		return int64(x)
	case int8:
		return int64(x)
	case int16:
		return int64(x)
	case int32:
		return int64(x)
	case int64:
		return x
	case uint:
		return int64(x)
	case uint8:
		return int64(int8(x))
	case uint16:
		return int64(int16(x))
	case uint32:
		return int64(int32(x))
	case uint64:
		return int64(x)
	case uintptr:
		return int64(x)
	case bool:
		if x {
			return 1
		}
		return 0
	}
	panic("raw")
}

func f64[T any](v T) (float64, bool) {
	switch x := any(v).(type) {
	case float32:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

// enc writes a value in the given arithmetic.
func enc[T any](v T, ar int, sc int) any {
	if f, ok := f64(v); ok {
		switch {
		case math.IsNaN(f):
			return nanVal
		case math.IsInf(f, 1):
			return pInfVal
		case math.IsInf(f, -1):
			return nInfVal
		}
		f *= float64(sc)
		if f != math.Trunc(f) || math.Abs(f) > 1e9 {
			return badVal
		}
		return int(f)
	}
	x := raw(v)
	if ar >= 100 {
		return limbs(uint64(x), ar-100)
	}
	x *= int64(sc)
	if x > 1000000000 || x < -1000000000 {
		return badVal
	}
	return int(x)
}

func limbs(x uint64, bits int) [5]int {
	if bits == 32 {
		x &= 0xffffffff
	}
	var l [5]int
	for i := 0; i < 5; i++ {
		l[i] = int(x & 0x1fff)
		x >>= 13
	}
	return l
}

func conv[T constraints.Number](v int64) T { return T(v) }

// palette lists distinct values of a type, zero first; extremes included.
func palette[T comparable]() []T {
	var z T
	var out []T
	add := func(vs ...any) {
		for _, v := range vs {
			out = append(out, v.(T))
		}
	}
	switch any(z).(type) {
	case int:
		add(int(0), int(1), int(-1), int(2), int(math.MaxInt64), int(math.MinInt64), int(1<<32), int(1<<53+1))
	case int8:
		add(int8(0), int8(1), int8(-1), int8(2), int8(127), int8(-128), int8(7), int8(100))
	case int16:
		add(int16(0), int16(1), int16(-1), int16(2), int16(32767), int16(-32768), int16(256), int16(100))
	case int32:
		add(int32(0), int32(1), int32(-1), int32(2), int32(math.MaxInt32), int32(math.MinInt32), int32(65536), int32(1<<24+1))
	case int64:
		add(int64(0), int64(1), int64(-1), int64(2), int64(math.MaxInt64), int64(math.MinInt64), int64(1<<32), int64(1<<53+1))
	case uint:
		add(uint(0), uint(1), uint(3), uint(2), uint(math.MaxUint64), uint(1<<63), uint(1<<32), uint(1<<53+1))
	case uint8:
		add(uint8(0), uint8(1), uint8(3), uint8(2), uint8(255), uint8(128), uint8(7), uint8(127))
	case uint16:
		add(uint16(0), uint16(1), uint16(3), uint16(2), uint16(65535), uint16(32768), uint16(256), uint16(127))
	case uint32:
		add(uint32(0), uint32(1), uint32(3), uint32(2), uint32(math.MaxUint32), uint32(1<<31), uint32(65536), uint32(1<<24+1))
	case uint64:
		add(uint64(0), uint64(1), uint64(3), uint64(2), uint64(math.MaxUint64), uint64(1<<63), uint64(1<<32), uint64(1<<53+1))
	case uintptr:
		add(uintptr(0), uintptr(1), uintptr(3), uintptr(2), uintptr(math.MaxUint64), uintptr(1<<63), uintptr(1<<32), uintptr(1<<53+1))
	case float32:
		add(float32(0), float32(1), float32(-1), float32(0.5), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32), float32(math.Inf(-1)), float32(math.NaN()))
	case float64:
		add(float64(0), float64(1), float64(-1), float64(0.5), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(-1), math.NaN())
	case bool:
		add(false, true)
	}
	return out
}

func tokOf[T comparable](p []T, v T) int {
	for i, x := range p {
		if x == v || (x != x && v != v) {
			return i
		}
	}
	return badVal
}

// closeValues lists distinct values of a type that are easily taken for each other
// after rounding, wrapping or truncation; zero first
func closeValues[T comparable]() []T {
	var z T
	var out []T
	add := func(vs ...any) {
		for _, v := range vs {
			out = append(out, v.(T))
		}
	}
	switch any(z).(type) {
	case int:
		add(int(0), int(1<<60), int(1<<60+1), int(1<<53), int(1<<53+1), int(-1<<60), int(1<<32))
	case int8:
		add(int8(0), int8(16), int8(32), int8(-128), int8(64), int8(4), int8(20))
	case int16:
		add(int16(0), int16(256), int16(512), int16(-32768), int16(1), int16(257), int16(2049))
	case int32:
		add(int32(0), int32(1<<16), int32(1<<24), int32(1<<24+1), int32(math.MinInt32), int32(1<<30), int32(1<<30+1))
	case int64:
		add(int64(0), int64(1<<60), int64(1<<60+1), int64(1<<53), int64(1<<53+1), int64(-1<<60), int64(1<<32))
	case uint:
		add(uint(0), uint(1<<60), uint(1<<60+1), uint(1<<53), uint(1<<53+1), uint(1<<63), uint(1<<32))
	case uint8:
		add(uint8(0), uint8(16), uint8(32), uint8(128), uint8(64), uint8(4), uint8(20))
	case uint16:
		add(uint16(0), uint16(256), uint16(512), uint16(32768), uint16(1), uint16(257), uint16(2049))
	case uint32:
		add(uint32(0), uint32(1<<16), uint32(1<<24), uint32(1<<24+1), uint32(1<<31), uint32(1<<30), uint32(1<<30+1))
	case uint64:
		add(uint64(0), uint64(1<<60), uint64(1<<60+1), uint64(1<<53), uint64(1<<53+1), uint64(1<<63), uint64(1<<32))
	case uintptr:
		add(uintptr(0), uintptr(1<<60), uintptr(1<<60+1), uintptr(1<<53), uintptr(1<<53+1), uintptr(1<<63), uintptr(1<<32))
	case float32:
		add(float32(0), math.Nextafter32(1, 2), float32(1), float32(math.SmallestNonzeroFloat32), 2*float32(math.SmallestNonzeroFloat32), float32(1<<30), float32(math.Inf(1)))
	case float64:
		add(float64(0), math.Nextafter(1, 2), float64(1), math.SmallestNonzeroFloat64, 2*math.SmallestNonzeroFloat64, math.Nextafter(1, 0), math.Inf(1))
	case bool:
		add(false, true)
	}
	return out
}

// negZero is -0, for the types that have it
func negZero[T comparable]() (z T) {
	switch p := any(&z).(type) {
	case *float32:
		*p = float32(math.Copysign(0, -1))
	case *float64:
		*p = math.Copysign(0, -1)
	}
	return
}
