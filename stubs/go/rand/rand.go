// Package rand is a stand-in for pgregory.net/rand: every value drawn is an
// arbitrary one (a fresh symbolic value, or read from the replay file).
package rand

import "verif/sym"

type Rand struct{ _ int }

func New(seed ...uint64) *Rand           { return &Rand{} }
func (r *Rand) Seed(seed uint64)         {}
func (r *Rand) Uint64() uint64           { return sym.FreshU64("rnd") }
func (r *Rand) Uint32() uint32           { return uint32(r.Uint64()) }
func (r *Rand) Int() int                 { return int(r.Uint64() >> 1) }
func (r *Rand) Int63() int64             { return int64(r.Uint64() >> 1) }
func (r *Rand) Int31() int32             { return int32(r.Uint64() >> 33) }
func (r *Rand) Uint64n(n uint64) uint64 {
	if n == 0 {
		return r.Uint64()
	}
	v := r.Uint64()
	sym.Assume(v < n)
	return v
}
func (r *Rand) Uint32n(n uint32) uint32 { return uint32(r.Uint64n(uint64(n))) }
func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(r.Uint64n(uint64(n)))
}
func (r *Rand) Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(r.Uint64n(uint64(n)))
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(r.Uint64n(uint64(n)))
}
func (r *Rand) Float64() float64 { return 0.5 }
func (r *Rand) ExpFloat64() float64 { return 0.05 }
func (r *Rand) Read(p []byte) (int, error) {
	sym.Fresh("rndbytes", p)
	return len(p), nil
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		if j := r.Intn(i + 1); j != i {
			swap(i, j)
		}
	}
}
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

var global = &Rand{}

func Uint64() uint64                 { return global.Uint64() }
func Intn(n int) int                 { return global.Intn(n) }
func Int63() int64                   { return global.Int63() }
func Read(p []byte) (int, error)     { return global.Read(p) }
func Float64() float64               { return 0.5 }
