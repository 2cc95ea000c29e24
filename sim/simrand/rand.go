// Package simrand replaces the global functions of math/rand, math/rand/v2 and golang.org/x/exp/rand;
// every value comes from the decision source.
package simrand

import (
	"math"

	"verif.local/sim/simrt"
)

func u63() int64 { return simrt.Draw63("rand") }

func Seed(int64)     {}
func SeedU(uint64)   {}
func Int63() int64   { return u63() }
func Uint32() uint32 { return uint32(u63() >> 31) }
func Uint64() uint64 { return uint64(u63())<<1 ^ uint64(u63()) }
func Int31() int32   { return int32(u63() >> 32) }
func Int() int       { return int(u63()) }
func Int64() int64   { return u63() }
func Int32() int32   { return int32(u63() >> 32) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return u63() % n
}
func Int64N(n int64) int64 { return Int63n(n) }
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(u63() % int64(n))
}
func Int32N(n int32) int32 { return Int31n(n) }
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(u63() % int64(n))
}
func IntN(n int) int          { return Intn(n) }
func N(n int64) int64         { return Int63n(n) }
func Uint64n(n uint64) uint64 { return uint64(u63()) % n }
func Float64() float64        { return float64(u63()>>10) / (1 << 53) }
func Float32() float32        { return float32(u63()>>39) / (1 << 24) }
func NormFloat64() float64 {
	a, b := Float64(), Float64()
	return math.Sqrt(-2*math.Log(1-a)) * math.Cos(2*math.Pi*b)
}
func ExpFloat64() float64 { return -math.Log(1 - Float64()) }
func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(u63())
	}
	return len(p), nil
}

// Source stands for math/rand.Source; its seed is ignored.
type Source interface{ Int63() int64 }

type source struct{ use *Rand }

func (s *source) Int63() int64 { return s.use.Int63() }

func NewSource(seed int64) Source { return &source{&Rand{}} }

// Rand stands for *math/rand.Rand, which is not safe for concurrent use: an
// overlap corrupts the generator (and can panic), so it is reported.
type Rand struct {
	busy int
}

func New(src Source) *Rand {
	if s, ok := src.(*source); ok {
		return s.use // the generator's state is the source's
	}
	return &Rand{}
}

func (r *Rand) use() {
	if r.busy > 0 {
		simrt.Fatal("unsynchronised concurrent use of a math/rand.Rand")
	}
	r.busy++
	simrt.Y(8)
	r.busy--
}
func (r *Rand) Seed(int64)                         { r.use() }
func (r *Rand) Int63() int64                       { r.use(); return Int63() }
func (r *Rand) Uint32() uint32                     { r.use(); return Uint32() }
func (r *Rand) Uint64() uint64                     { r.use(); return Uint64() }
func (r *Rand) Int31() int32                       { r.use(); return Int31() }
func (r *Rand) Int() int                           { r.use(); return Int() }
func (r *Rand) Int63n(n int64) int64               { r.use(); return Int63n(n) }
func (r *Rand) Int31n(n int32) int32               { r.use(); return Int31n(n) }
func (r *Rand) Intn(n int) int                     { r.use(); return Intn(n) }
func (r *Rand) Float64() float64                   { r.use(); return Float64() }
func (r *Rand) Float32() float32                   { r.use(); return Float32() }
func (r *Rand) NormFloat64() float64               { r.use(); return NormFloat64() }
func (r *Rand) ExpFloat64() float64                { r.use(); return ExpFloat64() }
func (r *Rand) Perm(n int) []int                   { r.use(); return Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { r.use(); Shuffle(n, swap) }
func (r *Rand) Read(p []byte) (int, error)         { r.use(); return Read(p) }
