// Package sha3: keccak as an uninterpreted function of the bytes written.
package sha3

import (
	"hash"
	"verif/sym"
)

type state struct{ buf []byte }

func NewLegacyKeccak256() hash.Hash { return &state{} }
func (s *state) Write(p []byte) (int, error) { s.buf = append(s.buf, p...); return len(p), nil }
func (s *state) Sum(b []byte) []byte {
	var o [32]byte
	sym.Keccak(s.buf, o[:])
	return append(b, o[:]...)
}
func (s *state) Read(p []byte) (int, error) {
	var o [32]byte
	sym.Keccak(s.buf, o[:])
	return copy(p, o[:]), nil
}
func (s *state) Reset()         { s.buf = s.buf[:0] }
func (s *state) Size() int      { return 32 }
func (s *state) BlockSize() int { return 136 }
