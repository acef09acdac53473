// Package rand replaces the top-level functions of math/rand in instrumented
// code with draws from the simulator.
package rand

import "vsim/rt"

func Seed(int64)       {}
func Uint32() uint32   { return rt.Bits(rt.StWork) }
func Uint64() uint64   { return uint64(Uint32())<<32 | uint64(Uint32()) }
func Int63() int64     { return int64(Uint64() >> 1) }
func Int31() int32     { return int32(Uint32() >> 1) }
func Int() int         { return int(Int63()) }
func Float64() float64 { return float64(Uint64()>>11) / (1 << 53) }
func Float32() float32 { return float32(Float64()) }
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(Uint64() % uint64(n))
}
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Int63n(n int64) int64 { return int64(Intn(int(n))) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
