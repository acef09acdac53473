// Package rand replaces the top-level functions of math/rand/v2 in instrumented
// code with draws from the simulator.
package rand

import "vsim/rt"

func Uint32() uint32   { return rt.Bits(rt.StWork) }
func Uint64() uint64   { return uint64(Uint32())<<32 | uint64(Uint32()) }
func Uint() uint       { return uint(Uint64()) }
func Int64() int64     { return int64(Uint64() >> 1) }
func Int32() int32     { return int32(Uint32() >> 1) }
func Int() int         { return int(Int64()) }
func Float64() float64 { return float64(Uint64()>>11) / (1 << 53) }
func Float32() float32 { return float32(Uint32()>>8) / (1 << 24) }
func Uint64N(n uint64) uint64 {
	if n == 0 {
		panic("invalid argument to Uint64N")
	}
	return Uint64() % n
}
func IntN(n int) int {
	if n <= 0 {
		panic("invalid argument to IntN")
	}
	return int(Uint64() % uint64(n))
}
func Int32N(n int32) int32    { return int32(IntN(int(n))) }
func Int64N(n int64) int64    { return int64(IntN(int(n))) }
func UintN(n uint) uint       { return uint(Uint64N(uint64(n))) }
func Uint32N(n uint32) uint32 { return uint32(Uint64N(uint64(n))) }
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(Uint64N(uint64(n)))
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := IntN(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, IntN(i+1))
	}
}
