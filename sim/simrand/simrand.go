// Package simrand replaces the global functions of math/rand by the simulator's generator.
package simrand

import "rodbsim/simrt"

var r = simrt.NewRand(7)

func init() { simrt.RegisterReset("simrand", func() { r = simrt.NewRand(7) }) }

func Uint64() uint64          { return r.Uint64() }
func Uint32() uint32          { return uint32(r.Uint64() >> 32) }
func Int63() int64            { return int64(r.Uint64() >> 1) }
func Int31() int32            { return int32(r.Uint64() >> 33) }
func Int() int                { return int(r.Uint64() >> 1) }
func Int32() int32            { return Int31() }
func Int64() int64            { return Int63() }
func Intn(n int) int          { return r.Intn(n) }
func IntN(n int) int          { return r.Intn(n) }
func Int31n(n int32) int32    { return int32(r.Intn(int(n))) }
func Int32N(n int32) int32    { return int32(r.Intn(int(n))) }
func Int63n(n int64) int64    { return int64(r.Intn(int(n))) }
func Int64N(n int64) int64    { return int64(r.Intn(int(n))) }
func UintN(n uint) uint       { return uint(r.Intn(int(n))) }
func Uint32N(n uint32) uint32 { return uint32(r.Intn(int(n))) }
func Uint64N(n uint64) uint64 { return uint64(r.Intn(int(n))) }
func Float64() float64        { return r.Float() }
func Float32() float32        { return float32(r.Uint64()>>40) / (1 << 24) }
func NormFloat64() float64 {
	s := 0.0
	for i := 0; i < 12; i++ {
		s += r.Float()
	}
	return s - 6
}
func ExpFloat64() float64 { return r.Float() * 2 }
func Perm(n int) []int    { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
func Seed(int64) {}
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(r.Uint64() >> 56)
	}
	return len(b), nil
}
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(r.Intn(int(n)))
}
