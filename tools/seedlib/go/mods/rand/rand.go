// Package rand: a stand-in on top of math/rand.
package rand

import "math/rand"

type Rand struct{ *rand.Rand }

func New(seed ...uint64) *Rand {
	s := int64(1)
	if len(seed) > 0 {
		s = int64(seed[0])
	}
	return &Rand{rand.New(rand.NewSource(s))}
}
func (r *Rand) Uint64n(n uint64) uint64 { return r.Uint64() % n }
func (r *Rand) Uint32n(n uint32) uint32 { return r.Uint32() % n }
func Intn(n int) int                  { return rand.Intn(n) }
